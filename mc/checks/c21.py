"""C21: external group and code databases are read back exactly."""

import functools
import itertools
import re

import galois
import numpy as np
from qldpc import abstract, codes, external

from mc.checks.c12 import build
from mc.checks.c19 import automorphism_generators, cycles as to_cycles, subspaces
from mc.core import Skip, require
from mc.fakegap import World, in_fork, read, scratch
from mc.ref import gf, perm_closure, tup

PROPERTY = "C21"
ASSUMPTIONS = [
    "GAP, git and GroupNames.org are replaced by executables on PATH and by an opener for web pages, which answer in the documented format (permutations as printed by GAP, matrices as lists, finite field elements as powers Z(p^k)^m in their smallest field, GroupNames pages with the layout of the site)",
    "a reply with anything on standard error is a failure of GAP; when GAP fails, either an error or the right answer from another source is accepted",
    "finite field elements of GAP and galois refer to the same (Conway) polynomials",
]
BOUNDS = {
    "quick": "generators: all lists of at most 2 permutations of S4 (1 + 24 + 576), 14 larger ones, from GAP and from GroupNames pages; all orders up to 60 and 12 larger ones with synthetic counts; all 5 x 8 x 4 combinations of GAP states, web states and kinds of names; codes: every matrix up to 2x2 over GF(2), GF(3), 1x3 and 3x1 over GF(2), GF(5), GF(7), prime-power fields with prime-field entries; idempotents: 18 group algebras over fields of order up to 25, replies in 3 orders; every automorphism group of a binary code of length at most 4 (from GAP) and all stored groups; 10 package installation scenarios",
    "thorough": "all lists of at most 3 permutations of S3 and 2 of S4 with 3 layouts, idempotents up to GF(64), binary codes of length 5",
}
CASE_TIMEOUT = 400

BASE = "https://people.maths.bris.ac.uk/~matyd/GroupNames/"


def gap_perm(perm):
    """A permutation (0-indexed array form) as printed by GAP."""
    return "".join("(" + ",".join(str(i + 1) for i in c) + ")" for c in to_cycles(perm)) or "()"


def gap_gens(gens):
    return "".join(gap_perm(g) + "\n" for g in gens)


def web_perm(perm):
    return "".join("(" + " ".join(str(i + 1) for i in c) + ")" for c in to_cycles(perm))


def as_perm(gen, n):
    """Array form of a list of 0-indexed cycles."""
    out = list(range(n))
    for c in gen:
        for a, b in zip(c, tuple(c[1:]) + (c[0],)) if c else ():
            require(out[a] == a, f"{gen}: cycles are not disjoint")
            out[a] = b
    return tuple(out)


def members_of(group, n):
    out = set()
    for g in group.generate():
        form = list(g.array_form)
        out.add(tuple(form + list(range(len(form), n))))
    return out


def index_page(entries, layout=0):
    """entries: list of (order, index, link)."""
    head = "<table class=\"gptable\" columns=\"6\" style='width: 70%;'>\n<tr><th width=\"12%\"></th><th width=\"5%\"><a href='T.html'>d</a></th><th width=\"7%\">ID</th></tr>"
    rows = []
    for order, index, link in entries:
        rows.append(
            f'<tr><td id="g{order}_{index}"><a href="{link}">G<sub>{order}</sub></a></td><td><a href="cyclic.html">Cyclic</a> group</td>'
            f'<td><a href="T15.html#c2">{order}</a></td><td><a href="R.html#dim1+">1+</a></td><td>G{order}</td><td>{order},{index}</td></tr>'
        )
    sep = "\n" if layout == 0 else "\n\n"
    return head + sep.join(rows) + "\n</table>\n<table class=\"gptable\">\n</table>"


def group_page(gens, name="G", second=None, layout=0):
    reps = []
    for i, gg in enumerate([gens] + ([second] if second else [])):
        text = "<br>\n".join(web_perm(g) for g in gg)
        reps.append(
            f"<a id='shl{i}' class='shl' href=\"javascript:showhide('shs{i}')\"><span class=\"nsgpn\">&#x25ba;</span>Regular action</a> - transitive group <a href=\"../T15.html#2t1\">2T1</a>"
            f"<div id='shs{i}' class='shs'>Generators in S<sub>2</sub><br><pre class='pre' id='textgn{i}'>{text}</pre>&emsp;<button class='copytext' id='copygn{i}'>Copy</button><br></div>"
        )
    before = "<pre class='pre' id='textpres'>&lt;a,b | a^2=b^2=1&gt;</pre><button class='copytext'>Copy</button>\n" if layout else ""
    return (
        f"<html><h1>{name}</h1>\n{before}<b><a href='https://en.wikipedia.org/wiki/Group actions' title='See wikipedia' class='wiki'>Permutation representations of {name}</a></b><br>"
        + "".join(reps)
        + "\n<b>Matrix representation</b><pre>1 0</pre><button class='copytext'>Copy</button></html>"
    )


# -- generators -------------------------------------------------------------------------------------------------


def ask_generators(root, world, name, n):
    world.enter(root)
    raw = external.groups.get_generators(name)
    group = abstract.Group.from_name(name)
    again = external.groups.get_generators(name)
    return [as_perm(g, n) for g in raw], members_of(group, n), group.name, raw == again


def case_generators(ctx, source, batch, layout=0):
    """Several groups known to one source."""
    with scratch() as root:
        if source == "gap":
            names = [f"Thing{i}Q(3)" for i in range(len(batch))]
            world = World(gap=[(name, gap_gens(gens), "") for name, gens in zip(names, batch)])
        else:
            # order 24 + j with several groups each
            ids = [(24 + i // 7, 1 + i % 7) for i in range(len(batch))]
            names = [f"SmallGroup({o},{i})" for o, i in ids]
            pages = {BASE: index_page([(o, i, f"{o}/G{i}.html") for o, i in ids], layout)}
            for (o, i), gens in zip(ids, batch):
                pages[BASE + f"{o}/G{i}.html"] = group_page(gens, second=[(1, 0)] if i % 2 else None, layout=layout)
            world = World(gap=None, pages=pages)
        for name, gens in zip(names, batch):
            gens = [tuple(g) for g in gens]
            n = max([len(g) for g in gens] + [1])
            got = in_fork(ask_generators, root, world, name, n)
            require(got[0] == "ok", f"generators {[gap_perm(g) for g in gens]} from {source}: {got}")
            raw, members, group_name, again = got[1]
            require(raw == gens, f"generators {gens} from {source} were read as {raw}")
            require(again, "another answer the second time")
            require(members == set(perm_closure(gens, n)), f"group with generators {gens} from {source}")
            require(group_name == name, f"name {group_name}")
            ctx.trans(3)


def ask_number(root, world, orders):
    world.enter(root)
    out = []
    for o in orders:
        try:
            out.append(external.groups.get_small_group_number(o))
        except Exception as exc:  # noqa: BLE001
            out.append(type(exc).__name__)
    return out


def case_numbers(ctx, source, shift):
    """Number of groups of each order, and all of their links."""
    orders = list(range(1, 61)) + [61, 64, 72, 96, 100, 120, 256, 384, 480, 499, 500, 128]
    count = {o: 1 + (o * 7 + shift) % 13 for o in orders}
    entries = [(o, i, f"{o}/x{o}y{i}.html") for o in orders for i in range(1, count[o] + 1)]
    with scratch() as root:
        if source == "gap":
            world = World(gap=[(f"({o})", f"{count[o]}", "") for o in orders])
        else:
            world = World(gap=None, pages={BASE: index_page([e for e in entries if e[0] <= 60]), BASE + "index500.html": index_page(entries)})
        got = in_fork(ask_number, root, world, orders)
        require(got == ("ok", [count[o] for o in orders]), f"numbers of groups from {source}: {got}")
        if source == "web":

            def urls():
                world.enter(root)
                return [external.groups.get_group_url(o, i) for o, i, _ in entries]

            got = in_fork(urls)
            require(got == ("ok", [BASE + link for _, _, link in entries]), "links to groups")

            def missing():
                world.enter(root)
                out = []
                for o in orders:
                    try:
                        out.append(external.groups.get_generators(f"SmallGroup({o},{count[o] + 1})"))
                    except Exception:  # noqa: BLE001
                        out.append(None)
                return out

            got = in_fork(missing)
            require(got == ("ok", [None] * len(orders)), f"groups that do not exist: {got}")
            got = in_fork(ask_number, root, world, [501, 1000])
            require(got[0] == "ok" and all(isinstance(v, str) for v in got[1]), f"numbers of groups beyond the database: {got}")
    ctx.trans(len(orders))


def ask_small(root, world, order, index):
    world.enter(root)
    group = abstract.SmallGroup(order, index)
    return members_of(group, 8), group.structure, abstract.SmallGroup.number(order), [members_of(g, 8) for g in abstract.SmallGroup.generator(order)]


def case_small_group(ctx, source):
    """SmallGroup objects of the five groups of order 8."""
    groups = {
        1: [(1, 2, 3, 4, 5, 6, 7, 0)],
        2: [(1, 2, 3, 0, 4, 5), (0, 1, 2, 3, 5, 4)],
        3: [(1, 2, 3, 0), (2, 1, 0, 3)],
        4: [(1, 2, 3, 0, 5, 6, 7, 4), (4, 7, 6, 5, 2, 1, 0, 3)],
        5: [(1, 0), (0, 1, 3, 2), (0, 1, 2, 3, 5, 4)],
    }
    with scratch() as root:
        if source == "gap":
            world = World(gap=[("NumberSmallGroups", "5", "")] + [(f"StructureDescription(SmallGroup(8,{i}))", f"Name {i}", "") for i in groups] + [(f"SmallGroup(8,{i})", gap_gens(g), "") for i, g in groups.items()])
        else:
            world = World(gap=None, pages={BASE: index_page([(8, i, f"8/{i}.html") for i in groups]), **{BASE + f"8/{i}.html": group_page(g) for i, g in groups.items()}})
        want = {i: set(perm_closure([tuple(list(p) + list(range(len(p), 8))) for p in g], 8)) for i, g in groups.items()}
        for i in groups:
            got = in_fork(ask_small, root, world, 8, i)
            require(got[0] == "ok", f"SmallGroup(8,{i}): {got}")
            members, structure, number, everything = got[1]
            require(members == want[i] and len(members) == 8, f"members of SmallGroup(8,{i})")
            require(number == 5 and everything == [want[j] for j in sorted(groups)], "iteration over the groups of order 8")
            require(structure == (f"Name {i}" if source == "gap" else f"SmallGroup(8,{i})"), f"structure {structure}")
        for bad in (0, 6, -1):
            got = in_fork(ask_small, root, world, 8, bad)
            require(got[0] == "raised", f"SmallGroup(8,{bad}) was accepted")
    ctx.trans(8)


# -- sources -----------------------------------------------------------------------------------------------------

RIGHT = [(1, 2, 0), (1, 0, 2)]
GAPS = {
    "absent": None,
    "ok": [("", gap_gens(RIGHT), "")],
    "error": [("", "", "Error, no such group\n")],
    "error_with_output": [("", "(1,2)\n", "Error, out of memory\n")],
    "garbage": [("", "fail\n", "")],
}
WEBS = ["ok", "unreachable", "404", "page_missing", "not_indexed", "no_generators", "no_link", "empty"]
KINDS = {"small": "SmallGroup(6,1)", "other": "SymmetricGroup(3)", "product": "SmallGroup(6,1)/Centre(x)", "nested": "DirectProduct(SmallGroup(6,1),CyclicGroup(2))", "known": None}


def web_pages(web):
    if web in ("unreachable", "404"):
        return {}
    pages = {BASE: index_page([(6, 1, "6/S3.html"), (6, 2, "6/C6.html"), (16, 1, "16/C16.html")]), BASE + "6/S3.html": group_page(RIGHT), BASE + "6/C6.html": group_page([(1, 2, 3, 4, 5, 0)])}
    if web == "page_missing":
        del pages[BASE + "6/S3.html"]
    elif web == "not_indexed":
        pages[BASE] = index_page([(6, 2, "6/C6.html"), (16, 1, "16/C16.html")])
    elif web == "no_generators":
        pages[BASE + "6/S3.html"] = "<html>nothing here</html>"
    elif web == "no_link":
        pages[BASE] = pages[BASE].replace('href="6/S3.html"', "").replace('href="cyclic.html"', "").replace('href="T15.html#c2"', "").replace('href="R.html#dim1+"', "")
    elif web == "empty":
        pages[BASE] = ""
    return pages


def ask_raw(root, world, name):
    world.enter(root)
    return external.groups.get_generators(name)


def case_sources(ctx, gap, web, kind, version="4.12.2\n"):
    with scratch() as root:
        world = World(gap=GAPS[gap], pages=web_pages(web), neterror="404" if web == "404" else "unreachable", version=version)
        installed = gap != "absent" and version.startswith("4.")
        if kind == "known":
            for name in list(external.groups.KNOWN_GROUPS):
                got = in_fork(ask_raw, root, world, name)
                require(got == ("ok", external.groups.KNOWN_GROUPS[name]), f"a stored group: {str(got)[:200]}")
            require(not read(root, "log") and not read(root, "weblog"), "external access for a stored group")
            ctx.trans()
            return
        name = KINDS[kind]
        got = in_fork(ask_raw, root, world, name)
        must = (installed and gap == "ok") or (not installed and web == "ok" and kind == "small")
        if got[0] == "ok":
            require(got[1] == [to_cycles(g) for g in RIGHT], f"wrong generators {got[1]}")
            require(must or (web == "ok" and kind == "small"), f"an answer {got[1]} without a source for {name}")
        else:
            require(got[0] == "raised", f"{got}")
            require(not must, f"the right answer is available, but {got}")
    ctx.trans()


def ask_package(root, world, what):
    world.enter(root)
    if what == "code":
        return external.codes.get_code("Thing()")
    if what == "idempotents":
        return external.groups.get_primitive_central_idempotents("Group((1,2))", 3)
    return external.groups.get_generators("Thing()")


def case_package(ctx, what, package, stdin, giterr):
    reply = {"code": "GF(2)\n[ 1, 1 ]\n", "idempotents": "[ (Z(3))*()+(Z(3)^0)*(1,2), (Z(3))*()+(Z(3))*(1,2) ]", "generators": "(1,2)\n"}[what]
    want = {"code": ([[1, 1]], 2), "idempotents": (((2, ((),)), (1, ((0, 1),))), ((2, ((),)), (2, ((0, 1),)))), "generators": [[(0, 1)]]}[what]
    with scratch() as root:
        world = World(gap=[("", reply, "")], package=package, stdin=stdin, giterr=giterr)
        got = in_fork(ask_package, root, world, what)
        refused = package == "fail" and stdin.strip().lower() not in ("", "y")
        broken = package == "fail" and giterr
        if got[0] == "ok":
            require(not refused and not broken, f"an answer without the package: {got}")
            require(got[1] == want, f"{what}: {got[1]}")
        else:
            require(got[0] == "raised" and (refused or broken), f"{got}")
        log = read(root, "gitlog")
        require(bool(log) == (package == "fail" and not refused), f"installation: {log!r}")
    ctx.trans()


# -- codes -----------------------------------------------------------------------------------------------------------


def gap_matrix(rows):
    return "".join("[ " + ", ".join(map(str, r)) + " ]\n" for r in rows)


def ask_codes(root, world, names):
    world.enter(root)
    out = []
    for name in names:
        raw = external.codes.get_code(name)
        code = codes.ClassicalCode.from_name(name)
        spaced = codes.ClassicalCode.from_name(" " + name.replace("(", " ( ") + " ")
        out.append((raw, np.asarray(code.matrix).tolist(), code.field.order, np.asarray(spaced.matrix).tolist()))
    return out


FIELD_NAMES = {2: ["GF(2)"], 3: ["GF(3)"], 5: ["GF(5)"], 7: ["GF(7)"], 4: ["GF(2^2)"], 8: ["GF(2^3)"], 9: ["GF(3^2)"], 11: ["GF(11)"]}


def case_codes(ctx, q, batch):
    f = gf(q) if q < 10 else None
    with scratch() as root:
        names = [f"Thing{i}Code(7,GF({q}))" for i in range(len(batch))]
        replies = []
        for name, rows in zip(names, batch):
            replies.append((f"{name}", FIELD_NAMES[q][0] + "\n" + gap_matrix(rows), ""))
        got = in_fork(ask_codes, root, World(gap=replies), names)
        require(got[0] == "ok", f"codes over GF({q}): {got}")
        for rows, (raw, matrix, order, spaced) in zip(batch, got[1]):
            rows = [list(r) for r in rows]
            require(raw[0] == rows and raw[1] == q, f"matrix {rows} over GF({q}) was read as {raw}")
            require(matrix == rows and spaced == rows and order == q, f"code with checks {rows} over GF({q}): {matrix} over GF({order})")
            ctx.trans(3)


BAD_CODES = [("", "Error, no such code\n"), ("GF(2)\n", ""), ("", ""), ("GF(2)\n[ 1, 0 ]\n", "Error, later\n"), ("GF(2)\nfail\n", ""), ("GF(2)\n[ Z(2)^0, 0*Z(2) ]\n", "")]


def case_bad_code(ctx, i):
    with scratch() as root:
        out, err = BAD_CODES[i]
        for world in (World(gap=[("", out, err)]), World(gap=None), World(gap=[("", "GF(2)\n[ 1 ]\n", "")], version="")):
            got = in_fork(ask_codes, root, world, ["SomeCode()"])
            require(got[0] == "raised", f"reply {out!r} {err!r} gave {got}")
    ctx.trans(3)


# -- automorphism groups of codes ---------------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def warm(q):
    """Have galois compile its routines before the child processes start."""
    field = galois.GF(q)
    a = field([[0, 1, 1], [1, 0, 1]])
    return codes.ClassicalCode(a).canonicalized.generator, a @ a.T + a @ a.T, a.row_reduce()


def ask_automorphisms(root, world, rows, q):
    world.enter(root)
    code = codes.ClassicalCode(galois.GF(q)(np.array(rows)))
    n = len(rows[0])
    return members_of(code.get_automorphism_group(), n)


def perm_group_of_code(f, rows):
    """All permutations of the columns that preserve the row space."""
    basis = f.rref(rows)[0]
    space = set(f.span(basis)) if basis else {tuple(0 for _ in rows[0])}
    n = len(rows[0])
    return {p for p in itertools.permutations(range(n)) if all(tuple(r[p[i]] for i in range(n)) in space for r in basis)}


def case_automorphisms(ctx, q, rows):
    f = gf(q)
    n = len(rows[0])
    if not f.rank(rows):
        raise Skip
    warm(q)
    with scratch() as root:
        got = in_fork(ask_automorphisms, root, World(gap=[("", "()\n", "")]), rows, q)
        require(got == ("ok", {tuple(range(n))}), f"trivial automorphism group: {got}")
        log = read(root, "log")
        want_fn = "AutomorphismGroup" if q == 2 else "PermutationAutomorphismGroup"
        match = re.search(r"(\w*AutomorphismGroup)\(CheckMatCode\((\[\[[0-9,\[\]]*\]\]),GF\((\d+)\)\)\)", log.replace(" ", ""))
        require(match is not None and match.group(1).endswith(want_fn) and (q == 2) == (match.group(1) == "AutomorphismGroup"), f"request for an automorphism group: {log}")
        asked = [tuple(int(v) for v in r.split(",")) for r in match.group(2)[2:-2].split("],[")]
        require(int(match.group(3)) == q and f.same_space(asked, rows), f"the request is about another code: {match.group(0)}")
    group = perm_group_of_code(f, rows)
    if q == 2:
        gens = [as_perm(g, n) for g in automorphism_generators(rows)]
        require(set(perm_closure(gens, n)) == group, "reference: automorphism search")
    else:
        gens = sorted(group)[1:]
    with scratch() as root:
        got = in_fork(ask_automorphisms, root, World(gap=[("", gap_gens(gens), "")]), rows, q)
        require(got == ("ok", group), f"automorphism group of {rows}: {got}")
    ctx.trans(2)


def case_known(ctx, index):
    """A stored group is the automorphism group of the code in its name."""
    name, gens = list(external.groups.KNOWN_GROUPS.items())[index]
    match = re.fullmatch(r"AutomorphismGroup\(CheckMatCode\((\[\[.*\]\]),GF\(2\)\)\)", name)
    require(match is not None, f"unexpected name {name}")
    rows = [tuple(int(v) for v in r.split(",")) for r in match.group(1)[2:-2].split("],[")]
    n, f = len(rows[0]), gf(2)
    stored = abstract.Group(*[abstract.GroupMember(as_perm(g, n)) for g in gens]).to_sympy()
    right = abstract.Group(*[abstract.GroupMember(as_perm(g, n)) for g in automorphism_generators(rows)]).to_sympy()
    require(stored.order() == right.order(), f"order {stored.order()} of a stored group instead of {right.order()}")
    require(all(right.contains(g) for g in stored.generators), "a stored group does not preserve its code")
    ctx.trans()


# -- idempotents -----------------------------------------------------------------------------------------------------


def gap_element(q, value):
    """An element of GF(q) (as an integer of galois) as printed by GAP."""
    field = galois.GF(q)
    p, deg = field.characteristic, field.degree
    x = field(value)
    for k in range(1, deg + 1):
        if deg % k == 0 and x ** (p**k) == x:
            gen = field.primitive_element ** ((q - 1) // (p**k - 1))
            m = 0
            while gen**m != x:
                m += 1
            base = f"Z({p})" if k == 1 else f"Z({p}^{k})"
            if m == 1:
                return base
            return f"{base}^{m}"
    raise ValueError


def primitive_idempotents(q, perms):
    """Primitive central idempotents of the algebra of a permutation group, as dicts perm -> coefficient."""
    f = gf(q)
    n = len(perms)
    index = {p: i for i, p in enumerate(perms)}
    mul = [[index[tuple(b[a[i]] for i in range(len(a)))] for b in perms] for a in perms]
    inv = [next(j for j in range(n) if mul[i][j] == index[tuple(range(len(perms[0])))]) for i in range(n)]
    classes = {}
    for x in range(n):
        key = min(mul[mul[inv[g]][x]][g] for g in range(n))
        classes.setdefault(key, []).append(x)
    classes = list(classes.values())
    # structure constants of the centre in the basis of class sums
    nc = len(classes)
    where = {x: c for c, members in enumerate(classes) for x in members}
    const = [[[0] * nc for _ in range(nc)] for _ in range(nc)]
    p = galois.GF(q).characteristic
    for a in range(nc):
        for b in range(nc):
            for x in classes[a]:
                for y in classes[b]:
                    z = mul[x][y]
                    if z == classes[where[z]][0]:
                        const[a][b][where[z]] = (const[a][b][where[z]] + 1) % p

    def prod(u, v):
        out = [0] * nc
        for a in range(nc):
            if u[a]:
                for b in range(nc):
                    if v[b]:
                        c = f.mul[u[a]][v[b]]
                        for k in range(nc):
                            if const[a][b][k]:
                                t = f.mul[c][const[a][b][k]]
                                out[k] = f.add[out[k]][t]
        return tuple(out)

    zero = (0,) * nc
    idem = [u for u in itertools.product(range(q), repeat=nc) if u != zero and prod(u, u) == u]
    primitive = [u for u in idem if not any(v != u and prod(u, v) == v for v in idem)]
    return [{perms[x]: u[c] for c, members in enumerate(classes) for x in members if u[c]} for u in primitive]


def ask_idempotents(root, world, desc, q):
    world.enter(root)
    group = build(desc)[0]
    ring = abstract.GroupRing(group, q)
    out = []
    for e in ring.get_primitive_central_idempotents():
        out.append({tuple(g.array_form): int(c) for c, g in e if c})
    raw = external.groups.get_primitive_central_idempotents(group.to_gap_group(), q)
    return out, raw


def case_idempotents(ctx, desc, q, order):
    group = build(desc)[0]
    n = group._group.degree if group.order > 1 else 1
    perms = sorted(tuple(g.array_form) or (0,) for g in group.generate())
    n = len(perms[0])
    want = primitive_idempotents(q, perms)
    terms = []
    for e in want:
        items = sorted(e.items(), reverse=order == 1)
        if order == 2:
            items = items[1::2] + items[::2]
        terms.append("+".join(f"({gap_element(q, c)})*{gap_perm(g)}" for g, c in items))
    if order:
        terms.reverse()
    reply = "[ " + ", ".join(terms) + " ]"
    with scratch() as root:
        got = in_fork(ask_idempotents, root, World(gap=[(f"GF({q})", reply, "")]), desc, q)
        require(got[0] == "ok", f"idempotents {reply}: {got}")
        out, raw = got[1]
        expected = list(reversed(want)) if order else want
        require([{(k or (0,)): v for k, v in e.items()} for e in out] == expected, f"idempotents {reply} of GF({q})[{desc}] were read as {out}, the reply means {expected}")
        flat = [{as_perm(c, n): v for v, c in e} for e in raw]
        require(flat == expected, f"idempotents {reply} were read as {raw}")
        # the request is about this group
        log = read(root, "log").replace(" ", "")
        match = re.search(r"Group\(([(),0-9]*)\)", log)
        require(match is not None, f"request: {log}")
        gens = []
        for text in re.findall(r"(?:\([0-9,]*\))+", match.group(1)):
            gens.append(as_perm([tuple(int(v) - 1 for v in c.split(",")) for c in re.findall(r"\(([0-9,]+)\)", text)], n))
        require(set(perm_closure(gens, n)) == set(perms), f"the request is about another group: {match.group(0)}")
    ctx.trans(len(want))


def case_no_idempotents(ctx, desc, q):
    """Not semisimple, or no source: an error."""
    with scratch() as root:
        for world in (World(gap=None), World(gap=[("", "", "Error, failed\n")])):
            got = in_fork(ask_idempotents, root, world, desc, q)
            require(got[0] == "raised", f"idempotents without a source: {got}")
    ctx.trans()


CASES = {
    "generators": case_generators,
    "numbers": case_numbers,
    "small_group": case_small_group,
    "sources": case_sources,
    "package": case_package,
    "codes": case_codes,
    "bad_code": case_bad_code,
    "automorphisms": case_automorphisms,
    "known": case_known,
    "idempotents": case_idempotents,
    "no_idempotents": case_no_idempotents,
}


# -- units -------------------------------------------------------------------------------------------------------------

BIG = [
    [tuple(range(1, 12)) + (0,)],
    [tuple(reversed(range(12)))],
    [(1, 0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 10), (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 9, 11)],
    [tuple((i * 5) % 13 for i in range(13))],
    [tuple((i + 1) % 101 for i in range(101))],
    [(2, 0, 1, 4, 3), (0, 1, 2, 4, 3), (1, 0, 2, 3, 4)],
    [(0, 1, 2, 3, 4, 5, 6, 7, 9, 8)],
]


def batches(items, size):
    for i in range(0, len(items), size):
        yield items[i : i + size]


def unit_generators(ctx, source, part, parts, layouts=(0,)):
    perms = list(itertools.permutations(range(4)))
    ident = tuple(range(4))
    pool = [[p] for p in perms] + [[p, r] for p in perms for r in perms]
    if source == "gap":
        pool.append([])
    else:
        pool = [g for g in pool if ident not in g]  # GroupNames lists no trivial generators
    small = pool + BIG
    for j, batch in enumerate(batches(small, 20)):
        if j % parts == part:
            for layout in layouts:
                ctx.case("generators", {"source": source, "batch": batch, "layout": layout})


def unit_misc(ctx):
    for source in ("gap", "web"):
        for shift in range(3):
            ctx.case("numbers", {"source": source, "shift": shift})
        ctx.case("small_group", {"source": source})
    for i in range(len(BAD_CODES)):
        ctx.case("bad_code", {"i": i})
    for i in range(len(external.groups.KNOWN_GROUPS)):
        ctx.case("known", {"index": i})
    for what in ("code", "generators", "idempotents"):
        for package, stdin, giterr in (("true", "", ""), ("fail", "n\n", ""), ("fail", "No\n", ""), ("fail", "y\n", "fatal: unreachable"), ("fail", "\n", "fatal: unreachable"), ("fail", "y\n", ""), ("fail", "\n", ""), ("fail", " Y \n", ""), ("/usr/share/gap", "n\n", ""), ("fail", "", "")):
            if package == "fail" and stdin == "":
                continue
            ctx.case("package", {"what": what, "package": package, "stdin": stdin, "giterr": giterr})


def unit_sources(ctx, part, parts):
    i = 0
    for gap in GAPS:
        for web in WEBS:
            for kind in KINDS:
                i += 1
                if i % parts == part:
                    ctx.case("sources", {"gap": gap, "web": web, "kind": kind})
    for version in ("4.13.0\n", "4.9.3", "", "3.4.4\n", "gap: command not found\n"):
        i += 1
        if i % parts == part:
            for kind in ("small", "other"):
                ctx.case("sources", {"gap": "ok", "web": "ok", "kind": kind, "version": version})


def unit_codes(ctx, part, parts):
    def matrices(q, m, n):
        return [[r for r in mat] for mat in itertools.product(itertools.product(range(q), repeat=n), repeat=m)]

    for q, shapes in ((2, [(1, 1), (1, 2), (2, 2), (1, 3), (3, 1)]), (3, [(1, 1), (1, 2), (2, 1), (2, 2)]), (5, [(1, 1), (1, 2)]), (7, [(1, 1), (2, 1)])):
        pool = [m for s in shapes for m in matrices(q, *s)]
        for j, batch in enumerate(batches(pool, 12)):
            if j % parts == part:
                ctx.case("codes", {"q": q, "batch": batch})
    for q in (4, 8, 9, 11) if part == 0 else ():
        ctx.case("codes", {"q": q, "batch": [[[1, 0, 1], [0, 1, 1]], [[0, 0]], [[1] * 12]]})


def unit_automorphisms(ctx, n, part, parts, q=2):
    f = gf(q)
    if q == 2:
        pool = subspaces(n)
    else:
        pool = [((1, 1, 0), (0, 0, 1)), ((1, 2, 0),), ((1, 1, 1),), ((1, 0, 2), (0, 1, 1)), ((1, 2),), ((0, 1, 1, 2),)]
        pool = [p for p in pool if len(p[0]) == n]
    for i, rows in enumerate(pool):
        if i % parts == part:
            ctx.case("automorphisms", {"q": q, "rows": rows})
            if i % 5 == 0 and len(rows) > 1:
                shuffled = (tuple(f.add[a][b] for a, b in zip(rows[0], rows[1])),) + tuple(rows[1:]) + (rows[0],)
                ctx.case("automorphisms", {"q": q, "rows": shuffled})


IDEM = [
    (["cyclic", 1], 2), (["cyclic", 1], 4), (["cyclic", 3], 2), (["cyclic", 3], 4), (["cyclic", 3], 16), (["cyclic", 5], 4), (["cyclic", 7], 2), (["cyclic", 5], 2),
    (["cyclic", 2], 3), (["cyclic", 2], 5), (["cyclic", 2], 9), (["cyclic", 4], 3), (["cyclic", 4], 5), (["cyclic", 2], 25), (["cyclic", 3], 25), (["symmetric", 3], 5), (["symmetric", 3], 7), (["cyclic", 3], 8),
]


def unit_idempotents(ctx, part, parts, extra=()):
    for i, (desc, q) in enumerate(IDEM + list(extra)):
        if i % parts == part:
            for order in range(3):
                ctx.case("idempotents", {"desc": desc, "q": q, "order": order})
            ctx.case("no_idempotents", {"desc": desc, "q": q})


UNITS = {
    "generators": unit_generators,
    "misc": unit_misc,
    "sources": unit_sources,
    "codes": unit_codes,
    "automorphisms": unit_automorphisms,
    "idempotents": unit_idempotents,
}


def units(tier):
    th = tier == "thorough"
    out = [("misc", {})] + [("codes", {"part": p, "parts": 4}) for p in range(4)]
    for p in range(4):
        out.append(("idempotents", {"part": p, "parts": 4, "extra": [(["cyclic", 3], 64), (["cyclic", 4], 9), (["cyclic", 2], 81)] if th else []}))
    for p in range(3):
        for source in ("gap", "web"):
            out.append(("generators", {"source": source, "part": p, "parts": 3, "layouts": (0, 1) if source == "web" else (0,)}))
    for p in range(2):
        out.append(("sources", {"part": p, "parts": 2}))
    for n in (1, 2, 3):
        out.append(("automorphisms", {"n": n, "part": 0, "parts": 1}))
        out.append(("automorphisms", {"n": n + 1, "part": 0, "parts": 1, "q": 3}))
    for p in range(3):
        out.append(("automorphisms", {"n": 4, "part": p, "parts": 3}))
    if th:
        for p in range(8):
            out.append(("automorphisms", {"n": 5, "part": p, "parts": 8}))
    return out
