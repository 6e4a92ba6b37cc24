"""
C12: identity markers isolate noise exactly where the user asks.

All bounded operation histories with markers are executed on the real code; for every single operation the
identity instructions it adds are counted per qubit, and the circuit without its identities must be the circuit
of the history without the markers.  A noise model bound to identities is run on qiskit-aer and compared with the
same circuit with explicit faults at the markers.
"""
from itertools import product

from qiskit import QuantumCircuit
from qtcodes import TopologicalCircuit, TopologicalRegister

from .. import aer, hist
from ..codes import Code, all_of, data_of
from ..common import SEED
from ..interp import run_all_branches, string_layout
from ..snap import circuit, ops

LEVEL = "model_checking"
RULE = ("every history up to the bound over all operations and both markers, on every code in bounds and on "
        "two-qubit circuits with CNOTs in both addressing modes; states = histories, transitions = operations")
ASSUMPTIONS = ["barriers carry no behaviour"]

OPS = list(hist.LOGICAL)
MARK = ("id", "idd")
TC = {"rz": "reset_z", "rx": "reset_x", "x": "x", "z": "z", "s": "stabilize", "id": "id", "idd": "id_data",
      "mz": "measure_z", "mx": "measure_x", "lz": "measure_lattice_z", "lx": "measure_lattice_x"}


def codes(tier):
    c = [Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XXZZ", 3, 3), Code("XZZX", 3, 3), Code("XXZZ", 1, 3),
         Code("XZZX", 1, 3), Code("XZZX", 3, 1), Code("XXZZ", 1, 1), Code("XZZX", 1, 1)]
    big = [Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("RepB", 7, 1), Code("RepP", 1, 5), Code("XXZZ", 5, 5),
           Code("XZZX", 5, 5), Code("XXZZ", 7, 3), Code("XZZX", 7, 7), Code("RepB", 11, 1)]
    return c, big


def cases(tier):
    th = tier == "thorough"
    small, big = codes(tier)
    for c in small:
        for head in OPS:
            yield {"code": c.spec, "head": head, "len": 4 if th else 3}
    for c in big:
        for head in OPS:
            yield {"code": c.spec, "head": head, "len": 3 if th else 2}
    for kind in ("XXZZ", "XZZX"):
        for a, b in ((9, 9), (11, 11), (13, 13), (3, 15), (15, 3), (1, 33), (33, 1), (5, 11), (11, 5)):
            for head in OPS:
                yield {"code": [kind, a, b], "head": head, "len": 1 if not th else 2}
    for d in (33, 71):
        for head in OPS:
            yield {"code": ["RepB", d, 1], "head": head, "len": 1}
            yield {"code": ["RepP", 1, d], "head": head, "len": 1}
    two = [Code("RepB", 3, 1), Code("XZZX", 3, 3), Code("XXZZ", 3, 3), Code("RepP", 1, 3)]
    for a in two:
        for b in two:
            for mode in ("index", "object"):
                for head in ("id0", "idd1", "s0", "cx01", "cx10", "cxt"):
                    yield {"pair": [a.spec, b.spec], "head": head, "mode": mode, "len": 4 if th else 3}
    for c in small + big[:5]:
        for basis in "zx":
            for pauli in ("X", "Z", "Y"):
                yield {"noise": c.spec, "basis": basis, "pauli": pauli}


def run_case(spec, st):
    if "code" in spec:
        return single(Code.of(spec["code"]), spec["head"], spec["len"], st)
    if "pair" in spec:
        return pair([Code.of(s) for s in spec["pair"]], spec["head"], spec["mode"], spec["len"], st)
    return noise(Code.of(spec["noise"]), spec["basis"], spec["pauli"], st)


def ids(circ, start):
    """Number of identity instructions per qubit added since `start`; None if one has another form."""
    out = {}
    for name, params, qs, cs, cond in ops(circ, start):
        if name in ("id", "delay"):
            if name != "id" or len(qs) != 1 or cond is not None:
                return None
            out[qs[0]] = out.get(qs[0], 0) + 1
    return out


def nested_id(circ, start):
    """Identities hidden in composite instructions."""
    def deep(op):
        for b in list(getattr(op, "blocks", ())) + ([op.definition] if op.name not in ("id",) and
                                                     getattr(op, "definition", None) is not None else []):
            for i in b.data:
                if i.operation.name == "id" or deep(i.operation):
                    return True
        return False
    return any(deep(i.operation) for i in circ.data[start:] if i.operation.name not in
               ("id", "barrier", "measure", "reset", "cx", "h", "x", "z"))


def want_ids(q, op):
    if op == "id":
        return {i: 1 for i in all_of(q)}
    if op == "idd":
        return {i: 1 for i in data_of(q)}
    return {}


def strip(snap):
    return {**snap, "i": [i for i in snap["i"] if i[0] not in ("id", "barrier")]}


def single(c, head, length, st):
    plain = {}
    for tail in hist.sequences(OPS, length - 1):
        word = (head,) + tail
        q = c.qubit(name="a")
        for op in word:
            d = len(q.circ.data)
            hist.apply(q, op)
            st["transitions"] += 1
            got = ids(q.circ, d)
            if got != want_ids(q, op) or nested_id(q.circ, d):
                return f"{word}: {op} placed identities {got}"
            if op in MARK and any(i[0] != "id" for i in ops(q.circ, d)):
                return f"{word}: the marker {op} also added something else"
        st["states"] += 1
        st["traces"] += 1
        bare = tuple(w for w in word if w not in MARK)
        if len(bare) != len(word):
            if bare not in plain:
                p = c.qubit(name="a")
                for op in bare:
                    hist.apply(p, op)
                plain[bare] = strip(circuit(p.circ))
            if strip(circuit(q.circ)) != plain[bare]:
                return f"{word} without its identities is not the circuit of {bare}"
    return None


LETTERS2 = ["id0", "id1", "idd0", "idd1", "s0", "s1", "x1", "rx0", "mz1", "lx0", "cx01", "cx10", "cxt", "cxc"]


def build_pair(cs, word, mode, st=None):
    treg = TopologicalRegister(ctypes=[c.ctype for c in cs], params=[c.params() for c in cs])
    anc = Code("RepB", 3, 1)
    treg.add_tqubit("ancilla", anc.ctype, anc.params())
    tc = TopologicalCircuit(treg)
    ext = QuantumCircuit(1, 1)
    tc.circ.add_register(*ext.qregs, *ext.cregs)
    bit = ext.qubits[0]
    for w in word:
        d = len(tc.circ.data)
        want = {}
        if w == "cx01":
            tc.cx(*(i if mode == "index" else treg[i] for i in (0, 1)))
        elif w == "cx10":
            tc.cx(*(i if mode == "index" else treg[i] for i in (1, 0)))
        elif w == "cxt":
            treg[0].cx(target=bit)
        elif w == "cxc":
            treg[1].cx(control=bit)
        else:
            i = int(w[-1])
            getattr(tc, TC[w[:-1]])(i if mode == "index" else treg[i])
            want = want_ids(treg[i], w[:-1])
        if st is not None:
            st["transitions"] += 1
        got = ids(tc.circ, d)
        if got != want or nested_id(tc.circ, d):
            return tc, f"{word}: {w} placed identities {got} instead of {want}"
    return tc, None


def pair(cs, head, mode, length, st):
    plain = {}
    for tail in hist.sequences(LETTERS2, length - 1):
        word = (head,) + tail
        tc, e = build_pair(cs, word, mode, st)
        if e:
            return e
        st["states"] += 1
        st["traces"] += 1
        bare = tuple(w for w in word if not w.startswith("id"))
        if len(bare) != len(word) and bare:
            if bare not in plain:
                plain[bare] = strip(circuit(build_pair(cs, bare, mode)[0].circ))
            if strip(circuit(tc.circ)) != plain[bare]:
                return f"{word} without its identities is not the circuit of {bare}"
    return None


def noise(c, basis, pauli, st):
    """Identity-bound noise of probability one on qiskit-aer = explicit faults at the markers."""
    from qiskit_aer.noise import NoiseModel, pauli_error

    nm = NoiseModel()
    nm.add_all_qubit_quantum_error(pauli_error([(pauli, 1.0)]), "id")
    for word in product(("id", "idd", "s"), repeat=3):
        q = c.qubit(name="a")
        ref = QuantumCircuit()
        hist.apply(q, "r" + basis)
        hist.apply(q, "s")
        for op in word:
            hist.apply(q, op)
        hist.apply(q, "s")
        hist.apply(q, "l" + basis)
        circ = q.circ
        ref = circ.copy_empty_like()
        for ins in circ.data:
            ref._append(ins)
            if ins.operation.name == "id":
                getattr(ref, pauli.lower())(ins.qubits[0])
        st["states"] += 1
        runs = list(run_all_branches(ref))
        layout = string_layout(ref)
        for s in aer.counts(circ, 12, SEED, nm):
            st["traces"] += 1
            st["aer"] += 1
            if not aer.reachable(runs, layout, s):
                return f"{word}: with {pauli} noise on the markers qiskit-aer gave {s}, which marked faults cannot"
        # the markers themselves are harmless
    return None
