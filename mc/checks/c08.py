"""C08: stacking, concatenating, conjugating and deforming preserve the code structure."""

import functools
import itertools
import math

import galois
import numpy as np
import stim
from qldpc import codes
from qldpc.objects import Pauli

from mc import qcommon, ref
from mc.core import require
from mc.ref import gf, presentations, subspaces, tup

PROPERTY = "C08"
ASSUMPTIONS = ["galois array primitives are exact", "reference symplectic algebra in mc/ref.py", "the symplectic action of the Clifford gates used is written out in this file"]
BOUNDS = {
    "quick": "operands: all gauge groups on 1 and 2 qubits, 1 qutrit / ququart (2 qutrits by stride), as general and as CSS codes, with default and with replaced logical operators; all pairs for stacking and concatenation (2-qubit pairs by stride), every wiring permutation, all subsets of conjugated qudits, all Clifford circuits of <=2 gates on <=2 qubits and all single gates on 3 qubits; operands over different fields or of sizes that do not fit; cyclic codes on 4 and 5 qubits, 3 qutrits, 3 ququarts by stride, conjugated and deformed, stacked and concatenated (as inner and as outer code) with groups on 1 and 2 qudits",
    "thorough": "all pairs of 2-qubit groups, triples of 1-qubit groups, 3-qubit stabilizer groups for conjugation and deformation, circuits of 3 gates",
}


def warmup():
    for q in (2, 3, 4, 5):
        c = codes.QuditCode(np.array([[1, 0, 0, 0], [0, 0, 0, 1]]), q)
        c.get_logical_ops(), c.get_gauge_ops()
        codes.QuditCode.stack(c, c).get_logical_ops()


def is_css(rows):
    n = len(rows[0]) // 2
    return all(not any(r[:n]) or not any(r[n:]) for r in rows)


def make(q, rows, css):
    n = len(rows[0]) // 2
    if not css:
        return codes.QuditCode(np.array(rows), q)
    hx = [r[:n] for r in rows if any(r[:n])] or [(0,) * n]
    hz = [r[n:] for r in rows if any(r[n:])] or [(0,) * n]
    return codes.CSSCode(np.array(hx), np.array(hz), q)


def prepare(q, rows, css, mode):
    """mode 0: untouched; 1: logical operators already computed; 2: other valid logical operators."""
    code = make(q, rows, css)
    if mode:
        L = tup(code.get_logical_ops())
        k = len(L) // 2
        if mode == 2 and k:
            f = gf(q)
            S = qcommon.facts(q, tuple(rows), len(rows[0]))[1]
            new = list(L)
            c = 2 % q or 1  # rescale X by c and Z by 1/c, reverse the order, multiply by a stabilizer
            new = [f.vscale(c, r) for r in new[:k][::-1]] + [f.vscale(f.inv[c], r) for r in new[k:][::-1]]
            if S:
                pick = [s for s in S if not css or any(s[: len(s) // 2]) == any(new[0][: len(s) // 2])]
                if pick:
                    new[0] = f.vadd(new[0], pick[0])
            code.set_logical_ops(np.array(new))
    return code


def snapshot(code):
    return (tup(code.matrix), None if getattr(code, "_logical_ops", None) is None else tup(code._logical_ops))


def verify(ctx, code, q, want_group, want_logicals, what, css=None, operands=()):
    """want_group: generators of the expected group; want_logicals: expected operators or None."""
    f = gf(q)
    rows = tup(code.matrix)
    twon = len(want_group[0])
    require(code.matrix.ndim == 2 and code.matrix.shape[1] == twon, f"{what}: wrong shape")
    require(f.rref(rows)[0] == f.rref(want_group)[0], lambda: f"{what}: checks {rows}, expected the group of {want_group}")
    css = isinstance(code, codes.CSSCode) if css is None else css
    before = tup(code.get_logical_ops())
    if want_logicals is not None:
        require(before == tuple(want_logicals), lambda: f"{what}: logical operators {before}, expected {want_logicals}")
    G, S, k, g, L, gauges = qcommon.check_quantum_code(code, q, rows, ctx=ctx, css=css)
    known = code.get_distance_if_known()
    if twon // 2 <= 4 and q ** twon <= 300:
        true = ref.quantum_distance(f, S, twon, G) if k else None
        require(known is None or (true is None and np.isnan(known)) or known == true, f"{what}: known distance {known}, true {true}")
        got = code.get_distance()
        require((true is None and np.isnan(got)) or got == true, f"{what}: distance {got}, true {true}")
    ctx.trans()


def embed(rows, n, offset, total):
    """Place symplectic rows on n qudits at an offset of a larger register."""
    out = []
    for r in rows:
        v = [0] * (2 * total)
        v[offset : offset + n] = r[:n]
        v[total + offset : total + offset + n] = r[n:]
        out.append(tuple(v))
    return out


def case_stack(ctx, q, parts, css, mode, inherit):
    parts = [tup(p) for p in parts]
    ops = [prepare(q, p, css, mode) for p in parts]
    L = [tup(c.get_logical_ops()) for c in ops] if inherit and mode else None
    before = [snapshot(c) for c in ops]
    cls = codes.CSSCode if css else codes.QuditCode
    code = cls.stack(*ops, inherit_logicals=inherit)
    require(type(code) is cls, "type of the stacked code")
    if inherit:
        L = [tup(c.get_logical_ops()) for c in ops]
    for c, (m, l) in zip(ops, before):
        require(tup(c.matrix) == m, "operand's checks changed")
        require(l is None or getattr(c, "_logical_ops", None) is None or tup(c._logical_ops) == l, "operand's logical operators changed")
    total = sum(len(p[0]) // 2 for p in parts)
    group, want, at = [], [[], []], 0
    for i, p in enumerate(parts):
        n = len(p[0]) // 2
        group += embed(p, n, at, total)
        if inherit:
            k = len(L[i]) // 2
            want[0] += embed(L[i][:k], n, at, total)
            want[1] += embed(L[i][k:], n, at, total)
        at += n
    verify(ctx, code, q, tuple(group), want[0] + want[1] if inherit else None, "stack")
    for i, (c, p) in enumerate(zip(ops, parts)):
        require(tup(c.get_logical_ops()) == L[i] if inherit else True, "operand's logicals changed later")


def case_concat(ctx, q, inner, outer, css, mode, inherit, wiring):
    f = gf(q)
    inner, outer = tup(inner), tup(outer)
    ci, co = prepare(q, inner, css[0], mode), prepare(q, outer, css[1], mode)
    Li, Lo = tup(ci.get_logical_ops()), tup(co.get_logical_ops())
    if not mode:
        ci, co = prepare(q, inner, css[0], 0), prepare(q, outer, css[1], 0)
    before = [snapshot(ci), snapshot(co)]
    ni, no, ki, ko = len(inner[0]) // 2, len(outer[0]) // 2, len(Li) // 2, len(Lo) // 2
    cls = codes.CSSCode if all(css) else codes.QuditCode
    w = wiring
    if isinstance(w, list) and mode == 1:
        w = dict(enumerate(w))
    code = cls.concatenate(ci, co, w, inherit_logicals=inherit)
    require(type(code) is cls, "type of the concatenated code")
    for c, (m, l), what, L in ((ci, before[0], "inner", Li), (co, before[1], "outer", Lo)):
        require(tup(c.matrix) == m, f"the {what} code's checks were changed")
        require(tup(c.get_logical_ops()) == L, f"the {what} code's logical operators were changed")
    if wiring is None:
        blocks_i, blocks_o = no, ki
        # physical qudit i of outer block j is logical qudit j of inner block i
        wire = {j * no + i: i * ki + j for i in range(no) for j in range(ki)}
    else:
        wire = dict(enumerate(wiring))
        blocks_i, blocks_o = len(wire) // ki, len(wire) // no
    total = blocks_i * ni
    LX, LZ, group = [], [], []
    for b in range(blocks_i):
        group += embed(inner, ni, b * ni, total)
        LX += embed(Li[:ki], ni, b * ni, total)
        LZ += embed(Li[ki:], ni, b * ni, total)

    def expand(row, block):
        out = (0,) * (2 * total)
        for i in range(no):
            j = wire[block * no + i]
            out = f.vadd(out, f.vadd(f.vscale(row[i], LX[j]), f.vscale(row[no + i], LZ[j])))
        return out

    want = [[], []]
    for b in range(blocks_o):
        group += [expand(r, b) for r in outer]
        want[0] += [expand(r, b) for r in Lo[:ko]]
        want[1] += [expand(r, b) for r in Lo[ko:]]
    verify(ctx, code, q, tuple(group), want[0] + want[1] if inherit else None, "concatenation")
    again = cls.concatenate(ci, co, w, inherit_logicals=inherit)
    require(tup(again.matrix) == tup(code.matrix), "concatenating again gives another code")
    require(tup(again.get_logical_ops()) == tup(code.get_logical_ops()), "concatenating again: logicals")


def fourier(f, row, qudits, inverse):
    n = len(row) // 2
    out = list(row)
    for i in qudits:
        x, z = row[i], row[n + i]
        out[i], out[n + i] = (z, f.neg[x]) if inverse else (f.neg[z], x)
    return tuple(out)


def case_conjugate(ctx, q, rows, css, mode, qudits, form):
    f = gf(q)
    rows = tup(rows)
    code = prepare(q, rows, css, mode)
    before = snapshot(code)
    qs = list(qudits)
    arg = {"list": qs, "tuple": tuple(qs), "array": np.array(qs, dtype=int)}.get(form)
    if form == "slice":
        arg = slice(qs[0], qs[-1] + 1) if qs else slice(0, 0)
        qs = list(range(len(code)))[arg]
    if form == "none":
        arg = None
        d = getattr(code, "_default_conjugate", ())
        require(d == (), "default qudits")
        qs = []
    out = code.conjugated(arg)
    require(snapshot(code) == before, "the code was changed")
    group = f.rref(tup(out.matrix))[0]
    for inverse in (False, True):
        image = tuple(fourier(f, r, qs, inverse) for r in rows)
        if f.rref(image)[0] == group:
            break
    else:
        require(False, f"checks {tup(out.matrix)} are no image of the code")
    want = None
    if mode:
        want = [fourier(f, r, qs, inverse) for r in before[1]]
        if f.rref(tuple(fourier(f, r, qs, True) for r in rows))[0] == group and not inverse:
            got = tup(out.get_logical_ops())
            if got != tuple(want):
                want = [fourier(f, r, qs, True) for r in before[1]]
    verify(ctx, out, q, image, want, "conjugated", css=False)
    if q == 2 and form == "list":
        require(codes.QuditCode.equiv(out.conjugated(arg), codes.QuditCode(code.matrix)), "conjugating twice")


GATES1 = ("H", "S", "S_DAG", "X", "Y", "SQRT_X", "C_XYZ", "H_YZ")
GATES2 = ("CX", "CZ", "CY", "SWAP", "ISWAP", "XCX")


def act(gate, targets, v):
    """Symplectic action of a Clifford gate on a binary vector (x | z)."""
    n = len(v) // 2
    x, z = list(v[:n]), list(v[n:])
    a = targets[0]
    if gate in ("X", "Y", "Z"):
        pass
    elif gate == "H":
        x[a], z[a] = z[a], x[a]
    elif gate in ("S", "S_DAG"):
        z[a] ^= x[a]
    elif gate in ("SQRT_X", "H_YZ"):  # Z -> Y, X -> X
        x[a] ^= z[a]
    elif gate == "C_XYZ":  # X -> Y, Y -> Z, Z -> X
        x[a], z[a] = x[a] ^ z[a], x[a]
    else:
        b = targets[1]
        if gate == "CX":
            x[b] ^= x[a]
            z[a] ^= z[b]
        elif gate == "CZ":
            z[b] ^= x[a]
            z[a] ^= x[b]
        elif gate == "CY":  # S_b CX S_b^-1
            z[b] ^= x[b]
            x[b] ^= x[a]
            z[a] ^= z[b]
            z[b] ^= x[b]
        elif gate == "SWAP":
            x[a], x[b], z[a], z[b] = x[b], x[a], z[b], z[a]
        elif gate == "ISWAP":  # SWAP * CZ * (S x S)
            z[a] ^= x[a]
            z[b] ^= x[b]
            z[b], z[a] = z[b] ^ x[a], z[a] ^ x[b]
            x[a], x[b], z[a], z[b] = x[b], x[a], z[b], z[a]
        elif gate == "XCX":
            x[a], x[b] = x[a] ^ z[b], x[b] ^ z[a]
        else:
            raise ValueError(gate)
    return tuple(x + z)


def image(circuit, v):
    for gate, targets in circuit:
        v = act(gate, targets, v)
    return v


def all_gates(n):
    out = [(g, (a,)) for g in GATES1 for a in range(n)]
    out += [(g, (a, b)) for g in GATES2 for a in range(n) for b in range(n) if a != b]
    return out


def case_deform(ctx, rows, css, mode, circuits):
    rows = tup(rows)
    f = gf(2)
    twon = len(rows[0])
    k = qcommon.facts(2, rows, twon)[2]
    for circuit in circuits:
        circuit = [(g, tuple(t)) for g, t in circuit]
        text = "\n".join(f"{g} {' '.join(map(str, t))}" for g, t in circuit)
        code = prepare(2, rows, css, mode)
        before = snapshot(code)
        out = code.deformed(text if mode else stim.Circuit(text))
        require(snapshot(code) == before, "the code was changed")
        want = tuple(image(circuit, r) for r in rows)
        require(tup(out.matrix) == want or f.rref(tup(out.matrix))[0] == f.rref(want)[0], lambda: f"{text}: checks {tup(out.matrix)}, expected {want}")
        logical = [image(circuit, r) for r in before[1]] if before[1] is not None else None
        verify(ctx, out, 2, want, logical, f"deformed by {text!r}", css=False)
        # keeping the logical operators is possible exactly if they are valid for the new code
        keep = tup(code.get_logical_ops())
        valid = all(f.sympl(a, b) == 0 for a in keep for b in want)
        try:
            kept = code.deformed(text, preserve_logicals=True)
        except ValueError:
            kept = None
        require((kept is not None) == valid, f"{text}: preserve_logicals " + ("rejected" if valid else "accepted"))
        if kept is not None:
            verify(ctx, kept, 2, want, keep, f"preserving {text!r}", css=False)
        ctx.trans(2)
        ctx.state((rows, css, mode, tuple(circuit)))


def case_unfit(ctx, a, b):
    """Operands that do not fit together are rejected, by every operation and in either role."""
    names = {"two": lambda: codes.QuditCode([[1, 0, 0, 1]], field=2),
             "three": lambda: codes.QuditCode([[1, 0, 0, 1]], field=3),
             "css2": lambda: codes.CSSCode([[1, 1]], np.zeros((0, 2), dtype=int), field=2),
             "css3": lambda: codes.CSSCode([[1, 1]], np.zeros((0, 2), dtype=int), field=3),
             "wide": lambda: codes.CSSCode([[1, 1, 1]], np.zeros((0, 3), dtype=int), field=2),
             "four": lambda: codes.CSSCode([[1, 1]], np.zeros((0, 2), dtype=int), field=4)}
    x, y = names[a](), names[b]()
    same = x.field is y.field
    both = isinstance(x, codes.CSSCode) and isinstance(y, codes.CSSCode)
    plain, before = codes.QuditCode, [tup(x.matrix), tup(y.matrix)]
    tries = [
        ("QuditCode.stack", same, lambda: plain.stack(x, y)),
        ("QuditCode.stack without logical operators", same, lambda: plain.stack(x, y, inherit_logicals=False)),
        ("CSSCode.stack", same and both, lambda: codes.CSSCode.stack(x, y)),
        ("CSSCode.stack without logical operators", same and both, lambda: codes.CSSCode.stack(x, y, inherit_logicals=False)),
        ("QuditCode.concatenate", same, lambda: plain.concatenate(x, y)),
        ("CSSCode.concatenate", same and both, lambda: codes.CSSCode.concatenate(x, y)),
        ("CSSCode.concatenate without logical operators", same and both, lambda: codes.CSSCode.concatenate(x, y, inherit_logicals=False)),
    ]
    for size in (1, 2, 3, 4, 6):
        tries.append((f"QuditCode.concatenate with {size} wires", same and size % len(y) == 0 and size % x.dimension == 0, lambda size=size: plain.concatenate(x, y, tuple(range(size)))))
    if a == b:
        tries.append(("deformed", x.field.order == 2, lambda: x.deformed("H 0")))
        tries.append(("ClassicalCode.stack", False, lambda: codes.ClassicalCode.stack(codes.ClassicalCode([[1]], field=x.field.order), codes.ClassicalCode([[1]], field=5))))
    for what, fits, call in tries:
        try:
            out = call()
        except Exception as exc:  # noqa: BLE001
            require(not fits, f"{what} of {a} and {b} failed: {type(exc).__name__}: {exc}")
        else:
            require(fits, f"{what} of {a} and {b} was accepted")
            require(out.field is x.field, f"{what}: field")
        ctx.trans()
    require([tup(x.matrix), tup(y.matrix)] == before, "operands were changed")


CASES = {"unfit": case_unfit, "stack": case_stack, "concat": case_concat, "conjugate": case_conjugate, "deform": case_deform}


def groups(q, n):
    f = gf(q)
    out = []
    for i, basis in enumerate(subspaces(f, 2 * n)):
        pres = presentations(f, basis, 2 * n)
        out.append(tuple(pres[i % len(pres)]))
    return out


def unit_stack(ctx, q, na, nb, stride, part, parts):
    for i, (a, b) in enumerate(itertools.product(groups(q, na), groups(q, nb))):
        if i % stride or (i // stride) % parts != part:
            continue
        for css in (False, True):
            if css and not (is_css(a) and is_css(b)):
                continue
            j = i // stride
            plan = [(m, h) for m in (0, 1, 2) for h in (True, False)] if na + nb < 3 else [(j % 3, True), ((j + 1) % 3, j % 2 == 0)]
            for mode, inherit in plan:
                ctx.case("stack", {"q": q, "parts": [a, b], "css": css, "mode": mode, "inherit": inherit})


def unit_stack3(ctx, q, stride):
    for i, (a, b, c) in enumerate(itertools.product(groups(q, 1), repeat=3)):
        if i % stride == 0:
            for css in (False, True):
                if css and not (is_css(a) and is_css(b) and is_css(c)):
                    continue
                ctx.case("stack", {"q": q, "parts": [a, b, c], "css": css, "mode": i % 3, "inherit": True})
    for a in groups(q, 1):
        for css in (False, True):
            if not css or is_css(a):
                ctx.case("stack", {"q": q, "parts": [a], "css": css, "mode": 1, "inherit": True})


def unit_concat(ctx, q, ni, no, stride, part, parts, limit=6):
    for i, (a, b) in enumerate(itertools.product(groups(q, ni), groups(q, no))):
        if i % stride or (i // stride) % parts != part:
            continue
        ki = qcommon.facts(q, a, 2 * ni)[2]
        if not ki:
            continue
        size = math.lcm(ki, no)
        wirings = [None]
        perms = list(itertools.permutations(range(size))) if size < 4 else [(0, 2, 1, 3), (3, 1, 0, 2)]
        wirings += [list(p) for p in perms]
        if size * 2 * ni // ki <= limit:
            wirings += [list(p) for p in itertools.permutations(range(2 * size))][1::5][:4]
        for j, w in enumerate(wirings):
            opts = [(False, False)]
            if is_css(a):
                opts.append((True, False))
            if is_css(a) and is_css(b):
                opts = [(True, True), (False, False)]
            css = opts[(i + j) % len(opts)]
            m = (i + j) % 3
            ctx.case("concat", {"q": q, "inner": a, "outer": b, "css": css, "mode": m, "inherit": (i + j) % 4 != 0, "wiring": w})


def unit_conjugate(ctx, q, n, stride, part, parts):
    for i, a in enumerate(groups(q, n)):
        if i % stride or (i // stride) % parts != part:
            continue
        for r in range(n + 1):
            for j, qs in enumerate(itertools.combinations(range(n), r)):
                forms = ["list", "slice", "tuple", "array", "none"]
                for form in forms if n == 1 else [forms[(i + j) % 5], "list"]:
                    css = is_css(a) and (i + j) % 2 == 0
                    ctx.case("conjugate", {"q": q, "rows": a, "css": css, "mode": (i + j + r) % 3, "qudits": qs, "form": form})


def unit_deform(ctx, n, depth, stride, part, parts):
    gates = all_gates(n)
    circuits = list(itertools.product(gates, repeat=depth))
    for i, a in enumerate(groups(2, n)):
        if i % stride or (i // stride) % parts != part:
            continue
        sub = circuits if len(circuits) < 200 else circuits[(i * 7) % 11 :: 11]
        ctx.case("deform", {"rows": a, "css": is_css(a) and i % 2 == 0, "mode": (i // stride) % 3, "circuits": sub})


@functools.lru_cache(None)
def larger(q, n):
    """Cyclic codes on n qudits, some of them with a part of the shifts."""
    f = gf(q)
    out = []
    for i, rows in enumerate(ref.cyclic_checks(q, n)):
        out.append(rows[: n - i % 3])
    for hx, hz in itertools.product(ref.cyclic_rows(q, n), repeat=2):
        if hx != hz or len(out) % 2:
            zero = (0,) * n
            out.append(tuple(r + zero for r in hx[:-1]) + tuple(zero + r for r in hz[:-2] or hz))
    return out


def unit_larger(ctx, what, q, n, m, stride, part, parts):
    """Operands on more qudits: cyclic codes on n qudits, combined with all groups on m qudits."""
    if what in ("conjugate", "deform"):
        gates = [((g, t),) for g, t in all_gates(n)]
        for i, a in enumerate(larger(q, n)):
            if i % stride or (i // stride) % parts != part:
                continue
            css = is_css(a) and (i // stride) % 4 != 0
            mode = (i // stride) % 3
            if what == "deform":
                ctx.case("deform", {"rows": a, "css": css, "mode": mode, "circuits": gates[i % 7 :: 7]})
                continue
            subsets = [qs for r in range(n + 1) for qs in itertools.combinations(range(n), r)]
            for qs in subsets[i % 3 :: 3]:
                ctx.case("conjugate", {"q": q, "rows": a, "css": css, "mode": mode, "qudits": qs, "form": "list"})
        return
    pool = groups(q, m)
    for i, (a, b) in enumerate(itertools.product(larger(q, n), pool)):
        if i % stride or (i // stride) % parts != part:
            continue
        j = i // stride
        if what == "stack":
            css = is_css(a) and is_css(b) and j % 4 != 0
            pair = [a, b] if j % 2 else [b, a]
            ctx.case("stack", {"q": q, "parts": pair, "css": css, "mode": j % 3, "inherit": j % 5 != 0})
            continue
        inner, outer = (a, b) if what == "inner" else (b, a)
        ni, no = len(inner[0]) // 2, len(outer[0]) // 2
        ki = qcommon.facts(q, inner, 2 * ni)[2]
        if not ki or math.lcm(ki, no) // ki * ni > 12:
            continue
        size = math.lcm(ki, no)
        wirings = [None]
        wirings.append([(2 * x + j) % size for x in range(size)] if size % 2 else list(range(size))[::-1])
        css = [False, False]
        if is_css(inner):
            css = [True, is_css(outer)] if j % 3 else [True, False]
        for w, wiring in enumerate(wirings):
            if wiring is None and ki * no * ni // ki > 12:
                continue
            ctx.case("concat", {"q": q, "inner": inner, "outer": outer, "css": css, "mode": (w + j) % 3, "inherit": j % 4 != 0, "wiring": wiring})


def unit_unfit(ctx):
    for a, b in itertools.product(("two", "three", "css2", "css3", "four", "wide"), repeat=2):
        ctx.case("unfit", {"a": a, "b": b})


UNITS = {"unfit": unit_unfit, "larger": unit_larger, "stack": unit_stack, "stack3": unit_stack3, "concat": unit_concat, "conjugate": unit_conjugate, "deform": unit_deform}


def units(tier):
    deep = tier == "thorough"
    out = [("unfit", {})]

    def add(name, parts, **kw):
        for part in range(parts):
            out.append((name, {**kw, "part": part, "parts": parts}))

    add("stack", 1, q=2, na=1, nb=1, stride=1)
    add("stack", 2, q=2, na=1, nb=2, stride=1)
    add("stack", 2, q=2, na=2, nb=1, stride=1)
    add("stack", 8, q=2, na=2, nb=2, stride=1 if deep else 13)
    add("stack", 1, q=3, na=1, nb=1, stride=1)
    add("stack", 2, q=3, na=1, nb=2, stride=1 if deep else 11)
    add("stack", 1, q=4, na=1, nb=1, stride=1)
    out.append(("stack3", {"q": 2, "stride": 1 if deep else 3}))
    out.append(("stack3", {"q": 3, "stride": 1 if deep else 5}))
    add("concat", 1, q=2, ni=1, no=1, stride=1)
    add("concat", 4, q=2, ni=2, no=1, stride=1)
    add("concat", 4, q=2, ni=1, no=2, stride=1)
    add("concat", 8, q=2, ni=2, no=2, stride=1 if deep else 11)
    add("concat", 1, q=3, ni=1, no=1, stride=1)
    add("concat", 2, q=3, ni=2, no=1, stride=1 if deep else 13, limit=2)
    add("concat", 2, q=3, ni=1, no=2, stride=1 if deep else 13, limit=2)
    add("concat", 1, q=4, ni=1, no=1, stride=1)
    for q, n, stride, parts in ((2, 1, 1, 1), (2, 2, 1, 1), (3, 1, 1, 1), (3, 2, 1 if deep else 2, 4), (4, 1, 1, 1), (5, 1, 1, 1), (2, 3, 3 if deep else 41, 4), (9, 1, 1, 1)):
        add("conjugate", parts, q=q, n=n, stride=stride)
    add("deform", 1, n=1, depth=1, stride=1)
    add("deform", 1, n=1, depth=2, stride=1)
    add("deform", 4, n=2, depth=1, stride=1)
    add("deform", 8, n=2, depth=2, stride=1 if deep else 7)
    add("deform", 8, n=3, depth=1, stride=11 if deep else 211)
    for what, q, n, m, stride, parts in (
        ("conjugate", 2, 4, 0, 2, 4), ("conjugate", 2, 5, 0, 7, 4), ("conjugate", 3, 3, 0, 7, 4), ("conjugate", 4, 3, 0, 71, 4),
        ("deform", 2, 4, 0, 3, 4), ("deform", 2, 5, 0, 11, 4),
        ("stack", 2, 4, 1, 2, 4), ("stack", 2, 3, 2, 13, 4), ("stack", 3, 3, 1, 9, 4),
        ("inner", 2, 4, 1, 3, 4), ("inner", 2, 4, 2, 31, 4), ("inner", 2, 5, 1, 13, 4), ("inner", 3, 3, 1, 13, 4),
        ("outer", 2, 3, 1, 2, 4), ("outer", 2, 4, 1, 2, 4), ("outer", 2, 4, 2, 31, 4), ("outer", 2, 3, 2, 13, 4), ("outer", 3, 3, 1, 11, 4),
    ):
        add("larger", parts, what=what, q=q, n=n, m=m, stride=max(1, stride // 5) if deep else stride)
    if deep:
        add("deform", 2, n=1, depth=3, stride=1)
    return out
