"""C19: encoding, logical and transversal circuits implement what they claim."""

import ast
import itertools
import re
from unittest import mock

import galois
import numpy as np
import stim
from qldpc import circuits, codes
from qldpc.objects import Pauli

from mc import ref
from mc.core import Skip, require
from mc.ref import gf, tup

PROPERTY = "C19"
ASSUMPTIONS = [
    "stim conjugates Pauli strings by Clifford operations correctly, including signs",
    "the external computer algebra system (not installed) returns generators of the automorphism group of a binary linear code; it is replaced by an exact search over linear maps that permute the columns of the check matrix",
    "a transversal circuit is sought among products of qubit permutations and single-qubit gates from the group generated by the local gates; for subsystem codes it has to preserve the gauge group; with deform_code=True it has to preserve the group generated by the logical operators of the code",
    "the code has at least one check, and at least one logical qubit where logical operations are concerned",
]
BOUNDS = {
    "quick": "encoders: every stabilizer group on 1-2 qubits, every gauge group on 1-2 qubits, every 17th stabilizer group and every 97th subspace on 3 qubits, 14 named codes up to 17 qubits; logical tableaus: 8 codes x all 24 (k=1) or 60 (k=2) logical Cliffords x all Paulis x 6 actions on the stabilizer and gauge qubits; transversal: every stabilizer code with k>=1 on 2 qubits, every 23rd on 3 qubits (10 local gate sets), 5 codes on 3-5 qubits (4 local gate sets), 3 codes on 7 qubits without symmetries (single local gates), local gate sets with and without SWAP, with and without deformation; all 6 (k=1) or 720 (k=2) logical operations modulo Paulis, with all 4 (k=1) or 3 (k=2) Pauli parts; encoders of all codes generated by cyclic shifts of one operator on 4..6 qubits and every 5th on 7 qubits",
    "thorough": "all stabilizer groups on 3 qubits, every 7th subspace, every 3rd 3-qubit code for transversal circuits, all sign patterns",
}
CASE_TIMEOUT = 600


# -- automorphism groups of binary linear codes -----------------------------------------------------------


def automorphism_generators(rows):
    """Generators (as lists of cycles) of the permutations of columns that preserve the row space."""
    f = gf(2)
    basis = f.rref(rows)[0]
    n = len(rows[0])
    cols = [sum(int(basis[i][c]) << i for i in range(len(basis))) for c in range(n)]
    classes = {}
    for c, v in enumerate(cols):
        classes.setdefault(v, []).append(c)
    gens = []
    for members in classes.values():
        for a, b in zip(members, members[1:]):
            perm = list(range(n))
            perm[a], perm[b] = b, a
            gens.append(perm)
    # linear maps of the column space that permute its distinct vectors and their multiplicities
    distinct = [v for v in classes if v]
    mult = {v: len(classes[v]) for v in classes}
    base, span = [], {0: 0}
    for v in distinct:
        if v not in span:
            base.append(v)
            bit = 1 << (len(base) - 1)
            span.update({w ^ v: k | bit for w, k in list(span.items())})
    coords = {v: span[v] for v in distinct}
    level_check = []  # vectors that are determined once base[0..i] have images
    for i in range(len(base)):
        level_check.append([v for v in distinct if coords[v] >> i == 1])

    def image(v, imgs):
        out = 0
        for i, w in enumerate(imgs):
            if coords[v] >> i & 1:
                out ^= w
        return out

    def search(imgs, used):
        """One completion of the partial map, or None."""
        i = len(imgs)
        if i == len(base):
            return imgs
        for w in distinct:
            new = try_add(imgs, used, w)
            if new is not None:
                found = search(*new)
                if found is not None:
                    return found
        return None

    def try_add(imgs, used, w):
        nxt = imgs + [w]
        add = set()
        for v in level_check[len(imgs)]:
            x = image(v, nxt)
            if mult.get(x) != mult[v] or x in used or x in add:
                return None
            add.add(x)
        return nxt, used | add

    def to_perm(imgs):
        perm = list(range(n))
        for v in distinct:
            for a, b in zip(classes[v], classes[image(v, imgs)]):
                perm[a] = b
        return perm

    # stabilizer chain: fix base[0..i-1], move base[i]
    for i in range(len(base)):
        imgs, used = [], set()
        for j in range(i):
            imgs, used = try_add(imgs, used, base[j])
        reached = {base[i]}
        level = []
        for w in distinct:
            if w in reached:
                continue
            new = try_add(imgs, used, w)
            if new is None:
                continue
            found = search(*new)
            if found is not None:
                level.append(to_perm(found))
                reached.add(w)
        gens += level
    return [cycles(p) for p in gens]


def cycles(perm):
    out, seen = [], set()
    for s in range(len(perm)):
        if s in seen or perm[s] == s:
            continue
        cyc, v = [], s
        while v not in seen:
            seen.add(v)
            cyc.append(v)
            v = perm[v]
        out.append(tuple(cyc))
    return out


CALLS = []


def fake_generators(name):
    match = re.fullmatch(r"AutomorphismGroup\(CheckMatCode\((\[\[.*\]\]),GF\(2\)\)\)", name)
    require(match is not None, f"unexpected request for the group {name}")
    CALLS.append(name)
    return automorphism_generators(ast.literal_eval(match.group(1)))


def with_stub():
    return mock.patch("qldpc.external.groups.get_generators", fake_generators)


# -- Pauli bookkeeping --------------------------------------------------------------------------------------


def ps(op):
    """Stim Pauli string with sign +1 of an integer vector (x|z), independent of the library."""
    n = len(op) // 2
    return stim.PauliString("".join("_XZY"[int(op[q]) + 2 * int(op[q + n])] for q in range(n)))


def vec(string):
    xs, zs = string.to_numpy()
    return tuple(int(v) for v in xs) + tuple(int(v) for v in zs)


def apply(tableau, string):
    return tableau(string)


def pad(circuit, n):
    out = stim.Circuit()
    out += circuit
    out.append("I", range(n))
    return out.to_tableau()


class Frame:
    """Logical, gauge and stabilizer operators of a code, with signs."""

    def __init__(self, code):
        self.n = len(code)
        self.f = gf(2)
        L = tup(codes.QuditCode.get_logical_ops(code))
        self.k = len(L) // 2
        self.logicals = L
        self.stabs = tup(code.get_stabilizer_ops())
        self.gauges = tup(codes.QuditCode.get_gauge_ops(code)) if code.is_subsystem_code else ()
        self.gens = list(L) + list(self.gauges) + list(self.f.rref(self.stabs)[0] if self.stabs else ())
        self.nl, self.ng = len(L), len(self.gauges)

    def decompose(self, string):
        """(logical part, gauge part, sign) of a Pauli string in the group generated by all of them."""
        v = vec(string)
        coeffs = solve(self.gens, v)
        if coeffs is None:
            return None
        rest = string.copy()
        for j in reversed(range(self.nl, len(self.gens))):
            if coeffs[j]:
                rest = rest * ps(self.gens[j])
        return coeffs[: self.nl], coeffs[self.nl : self.nl + self.ng], rest


def solve(rows, v):
    """Coefficients c with sum c_i rows_i = v over GF(2) (rows independent), or None."""
    basis = []
    for i, r in enumerate(rows):
        basis.append([int("".join(map(str, r)), 2) if r else 0, 1 << i])
    piv = []
    for val, tag in basis:
        for pv, pt in piv:
            if val ^ pv < val:
                val, tag = val ^ pv, tag ^ pt
        if val:
            piv.append((val, tag))
            piv.sort(reverse=True)
    x, tag = int("".join(map(str, v)), 2), 0
    for pv, pt in piv:
        if x ^ pv < x:
            x, tag = x ^ pv, tag ^ pt
    if x:
        return None
    return [tag >> i & 1 for i in range(len(rows))]


def action(frame, tableau, target=None):
    """The tableau of logical operations implemented by a physical tableau, or None if the code space is lost.

    With a target frame, the result is expressed in the logical operators of the target.
    """
    target = target or frame
    for s in frame.f.rref(frame.stabs)[0] if frame.stabs else ():
        img = tableau(ps(s))
        parts = target.decompose(img)
        if parts is None or any(parts[0]) or any(parts[1]):
            return None
        if parts[2].sign != 1:
            return None
    for g in frame.gauges:
        parts = target.decompose(tableau(ps(g)))
        if parts is None or any(parts[0]):
            return None
    k = frame.k
    xs, zs = [], []
    for i, op in enumerate(frame.logicals):
        parts = target.decompose(tableau(ps(op)))
        if parts is None:
            return None
        coeffs, gauge, rest = parts
        if any(gauge):
            return None
        # write rest = sign * (product of logical operators) in the canonical form of a Pauli string
        want = stim.PauliString(k)
        prod = stim.PauliString(frame.n)
        for j in range(k):
            if coeffs[j]:
                one = stim.PauliString(k)
                one[j] = "X"
                want, prod = want * one, prod * ps(target.logicals[j])
            if coeffs[k + j]:
                one = stim.PauliString(k)
                one[j] = "Z"
                want, prod = want * one, prod * ps(target.logicals[k + j])
        # prod and rest agree up to a phase, which carries over to the logical string
        phase = rest.sign / prod.sign
        want = want * phase
        require(abs(want.sign.imag) < 1e-9 if isinstance(want.sign, complex) else True, "reference: imaginary sign")
        (xs if i < k else zs).append(want)
    return stim.Tableau.from_conjugated_generators(xs=xs, zs=zs)


def make_code(spec):
    kind = spec[0]
    if kind == "matrix":
        rows, sub = spec[1], spec[2]
        return codes.QuditCode(galois.GF(2)(np.array(rows)), is_subsystem_code=sub)
    if kind == "named":
        table = {
            "five": lambda: codes.FiveQubitCode(),
            "steane": lambda: codes.SteaneCode(),
            "422": lambda: codes.IcebergCode(2),
            "622": lambda: codes.IcebergCode(3),
            "surface2": lambda: codes.SurfaceCode(2, field=2),
            "surface2x1": lambda: codes.SurfaceCode(2, 1),
            "surface3": lambda: codes.SurfaceCode(3),
            "unrotated": lambda: codes.SurfaceCode(2, rotated=False),
            "toric2": lambda: codes.ToricCode(2, rotated=True),
            "toric": lambda: codes.ToricCode(2, rotated=False),
            "bacon2": lambda: codes.BaconShorCode(2),
            "bacon3": lambda: codes.BaconShorCode(3),
            "bacon23": lambda: codes.BaconShorCode(2, 3),
            "rep": lambda: codes.CSSCode([[1, 1, 0], [0, 1, 1]], np.zeros((0, 3), dtype=int)),
            "hgp": lambda: codes.HGPCode(codes.HammingCode(2)),
            "hgp_conj": lambda: codes.HGPCode(codes.RepetitionCode(2)).conjugated(),
            "shp": lambda: codes.SHPCode(codes.RepetitionCode(2), codes.HammingCode(2)),
        }
        return table[spec[1]]()
    raise ValueError(spec)


# -- encoders -----------------------------------------------------------------------------------------------


def case_encoder(ctx, spec, gauge=None):
    code = make_code(spec)
    if spec[0] == "matrix" and not tup(code.get_stabilizer_ops()) and code.dimension == 0 and code.gauge_dimension == 0:
        raise Skip
    n, k, g = len(code), code.dimension, code.gauge_dimension
    L = tup(codes.QuditCode.get_logical_ops(code))
    gauges = tup(codes.QuditCode.get_gauge_ops(code))
    f = gf(2)
    stab_space = f.rref(tup(code.get_stabilizer_ops()))[0] if len(code.get_stabilizer_ops()) else ()
    tableau = circuits.get_encoding_tableau(code)
    circuit = circuits.get_encoding_circuit(code)
    require(len(tableau) == n, "number of qubits")
    require(pad(circuit, n) == tableau, "the encoding circuit does not implement the encoding tableau")
    for what, tab in (("tableau", tableau), ("circuit", pad(circuit, n))):
        for j in range(k):
            require(tab.x_output(j) == ps(L[j]), f"{what}: X_{j} is not mapped to the logical operator")
            require(tab.z_output(j) == ps(L[k + j]), f"{what}: Z_{j} is not mapped to the logical operator")
        for j in range(g):
            require(tab.z_output(k + j) == ps(gauges[g + j]), f"{what}: Z of gauge qubit {j}")
            require(tab.x_output(k + j) == ps(gauges[j]), f"{what}: X of gauge qubit {j}")
        out = []
        for j in range(k + g, n):
            img = tab.z_output(j)
            require(img.sign == 1, f"{what}: stabilizer with a negative sign")
            out.append(vec(img))
        require((f.rref(out)[0] if out else ()) == stab_space, f"{what}: stabilizers are not those of the code")
    # state preparation: all-zero input
    sim = stim.TableauSimulator()
    sim.do(circuit)
    sim.set_num_qubits(n)
    for op in list(L[k:]) + list(gauges[g:]) + list(stab_space):
        require(sim.peek_observable_expectation(ps(op)) == 1, f"prepared state is not a +1 eigenstate of {ps(op)}")
    enc, dec = circuits.get_encoder_and_decoder(code)
    require(enc == tableau and enc.then(dec) == stim.Tableau(n), "decoder is not the inverse of the encoder")
    ctx.trans(4)


def case_reject(ctx, q):
    code = codes.SurfaceCode(2, field=q)
    calls = [
        lambda: circuits.get_encoding_circuit(code),
        lambda: circuits.get_encoding_tableau(code),
        lambda: circuits.get_transversal_ops(code),
        lambda: circuits.get_logical_tableau(code, stim.Circuit("H 0")),
        lambda: circuits.get_transversal_circuits(code, [stim.Circuit("H 0")]),
        lambda: circuits.get_transversal_circuit(code, stim.Circuit("H 0")),
        lambda: circuits.get_encoder_and_decoder(code),
    ]
    for i, call in enumerate(calls):
        try:
            with with_stub():
                call()
        except ValueError:
            continue
        require(False, f"call {i} accepted a code over GF({q})")
    for gates in (["X"], ["H", "CX"], ["S", "T"], ["SQRT_Z"], ["I"]):
        try:
            with with_stub():
                circuits.get_transversal_ops(codes.FiveQubitCode(), gates)
        except Exception:  # noqa: BLE001
            continue
        require(False, f"local gates {gates} were accepted")
    ctx.trans(len(calls))


# -- logical tableaus --------------------------------------------------------------------------------------------


def rest_actions(g, s):
    """Some Clifford operations on g gauge and s stabilizer qubits that keep the stabilizer state."""
    out = [""]
    if g:
        out.append("H 0\nS 0")
        out.append(f"X 0\nZ {g - 1}\nH {g - 1}")
    if s:
        out.append(f"S {g}\nZ {g + s - 1}")
    if s > 1:
        out.append(f"CX {g} {g + 1}\nSWAP {g} {g + s - 1}")
        out.append(f"CZ {g} {g + 1}\nCX {g + 1} {g}")
    if g and s:
        out.append(f"CX {g} 0\nCZ {g} 0\nH 0")
    return out


def case_logical(ctx, spec, part=0, parts=1, limit=60):
    """get_logical_tableau(E (T (x) R) E^-1) = T for logical T and stabilizer-preserving R, via Pauli conjugation."""
    code = make_code(spec)
    frame = Frame(code)
    n, k = frame.n, frame.k
    g = frame.ng // 2
    s = n - k - g
    enc = circuits.get_encoding_tableau(code)
    logical = list(itertools.islice(stim.Tableau.iter_all(k), None)) if k == 1 else list(some_cliffords(k, limit))
    for i, T in enumerate(logical):
        if i % parts != part:
            continue
        for j, rest in enumerate(rest_actions(g, s)):
            if k > 1 and (i + j) % 3:
                continue
            R = pad(stim.Circuit(rest), n - k) if n > k else None
            if R is None:
                both = T
            else:
                both = T + R
            U = enc.inverse().then(both).then(enc)
            want = action(frame, U)
            require(want is not None and want == T, "reference: the conjugated operation has another action")
            circuit = U.to_circuit()
            got = circuits.get_logical_tableau(code, circuit)
            require(got == T, f"logical tableau of an operation that implements\n{T}\nis\n{got}")
            ctx.trans()


def some_cliffords(k, limit):
    gates1 = ["I", "H", "S", "SQRT_X", "C_XYZ", "C_ZYX", "S_DAG", "X", "Y", "Z"]
    gates2 = ["", "CX {a} {b}", "CZ {a} {b}", "SWAP {a} {b}", "CX {b} {a}\nCX {a} {b}", "CY {a} {b}"]
    out = []
    for i, (g1, g2, two) in enumerate(itertools.product(gates1, gates1, gates2)):
        a, b = i % k, (i + 1) % k
        text = f"{g1} {a}\n{g2} {b}\n" + two.format(a=a, b=b) + f"\n{gates1[(3 * i) % 10]} {a}"
        out.append(pad(stim.Circuit(text), k))
    step = max(1, len(out) // limit)
    return out[::step]


# -- transversal circuits ------------------------------------------------------------------------------------------

LOCALS = {  # images of (x, z) under single-qubit Cliffords modulo Paulis, as 2x2 maps
    "I": ((1, 0), (0, 1)),
    "H": ((0, 1), (1, 0)),
    "S": ((1, 1), (0, 1)),  # X -> Y, Z -> Z
    "SQRT_X": ((1, 0), (1, 1)),  # X -> X, Z -> Y
    "C_XYZ": ((1, 1), (1, 0)),  # X -> Y, Z -> X
    "C_ZYX": ((0, 1), (1, 1)),  # X -> Z, Z -> Y
}


def local_group(gates):
    gates = set(gates) - {"SWAP"}
    if not gates:
        return ["I"]
    if len(gates) == 1:
        return ["I"] + sorted(gates)
    return list(LOCALS)


def transversal_elements(f, n, space, gates, preserved=None):
    """All (permutation, local maps) that map the row space `space` to itself."""
    basis = f.rref(space)[0]
    members = set(f.span(basis))
    loc = local_group(gates)
    perms = itertools.permutations(range(n)) if "SWAP" in gates else [tuple(range(n))]
    maps = [LOCALS[g] for g in loc]
    for perm in perms:
        for choice in itertools.product(range(len(loc)), repeat=n):
            ok = True
            for row in basis:
                if transform(row, n, perm, choice, maps) not in members:
                    ok = False
                    break
            if ok:
                yield perm, tuple(loc[c] for c in choice)


def transform(row, n, perm, choice, maps):
    out = [0] * (2 * n)
    for q in range(n):
        x, z = row[q], row[q + n]
        if x or z:
            (xx, xz), (zx, zz) = maps[choice[q]]
            out[perm[q]] = (x & xx) ^ (z & zx)
            out[perm[q] + n] = (x & xz) ^ (z & zz)
    return tuple(out)


def symplectic_of(frame, perm, local, n):
    """Action on the logical operators modulo Paulis (2k x 2k matrix), given that the group is preserved."""
    maps = [LOCALS[g] for g in local]
    rows = []
    for op in frame.logicals:
        img = transform(op, n, perm, tuple(range(n)), maps)
        c = solve(frame.gens, img)
        if c is None:
            return None
        rows.append(tuple(c[: frame.nl]))
    return tuple(rows)


def tableau_symplectic(tableau):
    x2x, x2z, z2x, z2z, *_ = tableau.to_numpy()
    return tup(np.block([[x2x, x2z], [z2x, z2z]]).astype(int))


ONE_QUBIT = None


def check_gates(circuit, gates, n):
    """The circuit only uses Paulis, the allowed swaps, and local Cliffords generated by the gate set."""
    allowed = {LOCALS[g] for g in local_group(gates)}
    require(circuit.num_qubits == n, f"circuit on {circuit.num_qubits} qubits instead of {n}")
    for op in circuit:
        data = stim.gate_data(op.name)
        require(data.is_unitary, f"{op.name} is not a gate")
        if data.is_single_qubit_gate:
            x2x, x2z, z2x, z2z, *_ = data.tableau.to_numpy()
            m = ((int(x2x[0, 0]), int(x2z[0, 0])), (int(z2x[0, 0]), int(z2z[0, 0])))
            require(m in allowed, f"gate {op.name} is not generated by {sorted(gates)}")
        else:
            require(op.name == "SWAP" and "SWAP" in gates, f"gate {op.name} is not transversal over {sorted(gates)}")


def all_symplectic(k):
    """All logical operations modulo Paulis."""
    seen = {}
    if k == 1:
        for T in stim.Tableau.iter_all(1, unsigned=True):
            seen[tableau_symplectic(T)] = T
    else:
        for T in stim.Tableau.iter_all(2, unsigned=True):
            seen[tableau_symplectic(T)] = T
    return seen


def signed(T, pattern):
    """T with X/Z images multiplied by the given signs."""
    x2x, x2z, z2x, z2z, xs, zs = T.to_numpy()
    k = len(T)
    bits = [(pattern >> i) & 1 for i in range(2 * k)]
    return stim.Tableau.from_numpy(
        x2x=x2x, x2z=x2z, z2x=z2x, z2z=z2z, x_signs=np.array(bits[:k], dtype=bool), z_signs=np.array(bits[k:], dtype=bool)
    )


def case_transversal(ctx, spec, gates, deform=False, patterns=(0, 1, 2, 3)):
    code = make_code(spec)
    frame = Frame(code)
    n, k, f = frame.n, frame.k, frame.f
    gates = tuple(gates)
    if deform:
        space = frame.logicals
    else:
        space = tup(code.matrix)
    # everything that exists
    existing = set()
    count = 0
    for perm, local in transversal_elements(f, n, space, gates):
        count += 1
        if deform:
            maps = [LOCALS[g] for g in local]
            rows = [solve(frame.logicals, transform(op, n, perm, tuple(range(n)), maps)) for op in frame.logicals]
            existing.add(tup(np.array(rows)))
        else:
            existing.add(symplectic_of(frame, perm, local, n))
    require(None not in existing, "reference: a preserved code with a lost logical operator")
    with with_stub():
        # generators of the group of operations
        for redundancies in (True, False):
            ops = circuits.get_transversal_ops(code, gates, deform_code=deform, remove_redundancies=redundancies)
            seen = set()
            for T, circuit in ops:
                check_circuit(ctx, code, frame, T, circuit, gates, deform)
                seen.add(tableau_symplectic(T))
                require(tableau_symplectic(T) in existing, "an operation that does not exist was reported")
            require(generated(f, seen, 2 * k) == existing, f"the reported operations generate another group (redundancies removed: {redundancies})")
            if redundancies:
                require(len(seen) == len(ops), "redundant operations")
        # searching for every logical operation
        targets = all_symplectic(k)
        for pattern in patterns:
            wanted = [signed(T, pattern) for T in targets.values()]
            found = circuits.get_transversal_circuits(code, wanted, gates, deform_code=deform)
            require(len(found) == len(wanted), "number of circuits")
            for T, circuit in zip(wanted, found):
                exists = tableau_symplectic(T) in existing
                if circuit is None:
                    require(not exists, f"no circuit was found for a logical operation that has one:\n{T}")
                    continue
                require(exists, f"a circuit was found for a logical operation that has none:\n{T}")
                check_circuit(ctx, code, frame, T, circuit, gates, deform)
        # one logical operation at a time, given as a circuit
        for i, T in enumerate(list(targets.values())[:6]):
            text = T.to_circuit()
            circuit = circuits.get_transversal_circuit(code, text, gates, deform_code=deform)
            exists = tableau_symplectic(T) in existing
            require((circuit is None) == (not exists), "search with a circuit")
            if circuit is not None:
                check_circuit(ctx, code, frame, pad(text, k), circuit, gates, deform)
    ctx.trans(count)


def generated(f, gens, dim):
    ident = tuple(tuple(int(i == j) for j in range(dim)) for i in range(dim))
    seen, todo = {ident}, [ident]
    while todo:
        v = todo.pop()
        for g in gens:
            w = f.matmul(v, g)
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def check_circuit(ctx, code, frame, T, circuit, gates, deform):
    n = frame.n
    require(isinstance(circuit, stim.Circuit), "not a circuit")
    check_gates(circuit, gates, n)
    U = pad(circuit, n)
    if not deform:
        got = action(frame, U)
        require(got is not None, f"the circuit does not preserve the code space:\n{circuit}")
        require(got == T, f"the circuit implements\n{got}\ninstead of\n{T}\ncircuit:\n{circuit}")
    else:
        target = deformed_frame(frame, U)
        require(target is not None, "the logical operators are not logical operators of the deformed code")
        got = action(frame, U, target)
        require(got is not None, "the circuit does not map the code to the deformed code")
        require(got == T, f"with deformation, the circuit implements\n{got}\ninstead of\n{T}\ncircuit:\n{circuit}")
    lib = circuits.get_logical_tableau(code, circuit, deform_code=deform)
    require(lib == T, f"get_logical_tableau gives\n{lib}\ninstead of\n{T}")
    ctx.trans()


def deformed_frame(frame, U):
    """The deformed code: images of stabilizers and gauge operators (with positive signs), same logical operators."""
    new = Frame.__new__(Frame)
    new.n, new.k, new.f, new.logicals = frame.n, frame.k, frame.f, frame.logicals
    img = lambda rows: tuple(vec(U(ps(r))) for r in rows)
    new.stabs, new.gauges = img(frame.stabs), img(frame.gauges)
    new.gens = list(new.logicals) + list(new.gauges) + list(frame.f.rref(new.stabs)[0] if new.stabs else ())
    new.nl, new.ng = frame.nl, frame.ng
    for a in new.logicals:
        for b in list(new.stabs) + list(new.gauges):
            if frame.f.sympl(a, b):
                return None
    return new


CASES = {
    "encoder": case_encoder,
    "reject": case_reject,
    "logical": case_logical,
    "transversal": case_transversal,
}


# -- units ----------------------------------------------------------------------------------------------------------


def subspaces(dim):
    """All row-reduced bases over GF(2) of subspaces of GF(2)^dim with at least one row."""
    out = []
    for r in range(1, dim + 1):
        for piv in itertools.combinations(range(dim), r):
            free = [(i, c) for i in range(r) for c in range(piv[i] + 1, dim) if c not in piv]
            for bits in itertools.product((0, 1), repeat=len(free)):
                m = [[0] * dim for _ in range(r)]
                for i, p in enumerate(piv):
                    m[i][p] = 1
                for (i, c), b in zip(free, bits):
                    m[i][c] = b
                out.append(tup(np.array(m)))
    return out


def isotropic(f, m):
    return all(not f.sympl(a, b) for a, b in itertools.combinations(m, 2))


_SPACES = {}


def spaces(n):
    if n not in _SPACES:
        f = gf(2)
        al = subspaces(2 * n)
        iso = [m for m in al if isotropic(f, m)]
        _SPACES[n] = (iso, [m for m in al if not isotropic(f, m)])
    return _SPACES[n]


def unit_encoder(ctx, n, which, stride=1, part=0, parts=1):
    iso, sub = spaces(n)
    pool = (iso if which == "stabilizer" else sub)[::stride]
    for i, m in enumerate(pool):
        if i % parts == part:
            ctx.case("encoder", {"spec": ["matrix", m, which != "stabilizer"]})


def unit_cyclic_encoders(ctx, n, part, parts, stride=1):
    f = gf(2)
    for i, rows in enumerate(ref.cyclic_checks(2, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            rows = rows[: max(1, n - (i // stride) % 3)]
            ctx.case("encoder", {"spec": ["matrix", rows, not ref.is_isotropic(f, rows)]})


NAMED = ["five", "steane", "422", "622", "surface2", "surface2x1", "surface3", "unrotated", "toric2", "toric", "bacon2", "bacon3", "bacon23", "rep", "hgp", "hgp_conj", "shp"]


def unit_named_encoders(ctx):
    for name in NAMED:
        ctx.case("encoder", {"spec": ["named", name]})
    for q in (3, 4):
        ctx.case("reject", {"q": q})


def unit_logical(ctx, name, limit, part=0, parts=1):
    ctx.case("logical", {"spec": ["named", name], "part": part, "parts": parts, "limit": limit})


GATES = [(), ("SWAP",), ("H",), ("S",), ("SQRT_X",), ("H", "S"), ("SWAP", "H"), ("SWAP", "S"), ("SWAP", "SQRT_X"), ("SWAP", "S", "SQRT_X")]


def unit_transversal(ctx, n, stride, part, parts, gates, offset=0):
    iso, _ = spaces(n)
    pool = [m for m in iso if len(m) < n][offset::stride]
    i = 0
    for m in pool:
        for g in gates:
            for deform in (False, True):
                i += 1
                if i % parts == part:
                    k = n - len(m)
                    pats = (0, 1, 2, 3) if k == 1 else (0, 5, 10)
                    ctx.case("transversal", {"spec": ["matrix", m, False], "gates": g, "deform": deform, "patterns": pats})


def unit_transversal_named(ctx, name, gates, deform, patterns):
    ctx.case("transversal", {"spec": ["named", name], "gates": gates, "deform": deform, "patterns": patterns})


# codes whose instrumental code (for the given local gate) has no nontrivial automorphism
ASYMMETRIC = {
    "H": "10100000010100 00100000110000 11000101110101 00010000001101 10101101011101 00100100010110",
    "S": "10011100001000 00000100100000 00010110011000 10100111001000 10000111000100 11111011101010",
    "SQRT_X": "11111010010001 00110001110000 01001011010001 01011001001010 00111001010110 00011110000001",
}


def unit_asymmetric(ctx):
    for gate, text in ASYMMETRIC.items():
        rows = [[int(c) for c in row] for row in text.split()]
        for gates in ((gate,), ("H",), ("S",), ("SQRT_X",)):
            ctx.case("transversal", {"spec": ["matrix", rows, False], "gates": list(gates), "patterns": [0, 1, 2, 3]})


UNITS = {
    "cyclic_encoders": unit_cyclic_encoders,
    "asymmetric": unit_asymmetric,
    "encoder": unit_encoder,
    "named_encoders": unit_named_encoders,
    "logical": unit_logical,
    "transversal": unit_transversal,
    "transversal_named": unit_transversal_named,
}


def units(tier):
    th = tier == "thorough"
    out = [("named_encoders", {}), ("asymmetric", {})]
    for n in (1, 2):
        out.append(("encoder", {"n": n, "which": "stabilizer"}))
        out.append(("encoder", {"n": n, "which": "subsystem"}))
    for p in range(4):
        out.append(("encoder", {"n": 3, "which": "stabilizer", "stride": 1 if th else 17, "part": p, "parts": 4}))
        out.append(("encoder", {"n": 3, "which": "subsystem", "stride": 7 if th else 97, "part": p, "parts": 4}))
    for n, parts, stride in ((4, 1, 1), (5, 2, 1), (6, 4, 1), (7, 4, 1 if th else 5)):
        out += [("cyclic_encoders", {"n": n, "part": p, "parts": parts, "stride": stride}) for p in range(parts)]
    for name in ("five", "steane", "surface2", "bacon2", "bacon23", "422", "toric2", "hgp_conj"):
        out.append(("logical", {"name": name, "limit": 200 if th else 60}))
    shs = ("S", "H", "SWAP")
    for name in ("422", "surface2", "surface2x1", "bacon2", "five"):
        for gates in (("SWAP",), ("H", "SWAP"), ("S", "SQRT_X"), shs):
            for deform in (False, True):
                if deform and (name in ("422", "five")):
                    continue  # the deformation search is far larger
                pats = (0, 5, 10, 15) if name == "422" else (0, 1, 2, 3)
                out.append(("transversal_named", {"name": name, "gates": gates, "deform": deform, "patterns": pats if th else pats[:2]}))
    for p in range(8):
        out.append(("transversal", {"n": 2, "stride": 1, "part": p, "parts": 8, "gates": GATES}))
        out.append(("transversal", {"n": 3, "stride": 3 if th else 23, "offset": 5, "part": p, "parts": 8, "gates": GATES}))
    return out
