"""
C10: a rejected request leaves no trace.

Every invalid request of the menu is issued at every position (and every pair at every pair of positions) of
every bounded valid program; it must raise, leave the register and circuit as they were, and the finished
circuit must equal the one built without it.
"""
from itertools import combinations, product

from qiskit import ClassicalRegister, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from .. import snap
from ..codes import QUBITS

LEVEL = "fault_enumeration"
RULE = ("every valid program up to the bound x every position x every refused request of the menu (and every pair "
        "for the shortest programs); non-trivial = the request was refused and the program continued after it; "
        "evaluations = programs executed")
ASSUMPTIONS = ["an ancilla choice is only validated by the first CNOT, which creates the ancilla"]

VALID = ["addB", "addX", "s0", "cx01", "cx10", "mz1", "x0", "cxA"]


def t_start():
    treg = TopologicalRegister(ctypes=["Repetition", "XZZX"], params=[{"d": 3}, {"d": (1, 3)}])
    tc = TopologicalCircuit(treg)
    ext = QuantumRegister(2, "ext")
    tc.circ.add_register(ext, ClassicalRegister(1, "cext"))
    for name in ("1_c0", "0_readout_0", "0_lattice_readout_0", "1_lattice_readout_0"):
        tc.circ.add_register(ClassicalRegister(1, treg.name + "_" + name))  # the user took these names
    tc.circ.add_register(QuantumRegister(1, "taken_1_ancilla"))
    tc.add_creg(1, "mine")
    tc.add_qreg(1, "mineq")
    return treg, tc, ext


def v_apply(op, treg, tc, ext):
    if op == "addB":
        treg.add_tqubit("data", "Repetition", {"d": 3, "phase-flip-protected": True})
    elif op == "addX":
        treg.add_tqubits("more", ["XZZX", "Repetition"], [{"d": (3, 1)}, {}])
    elif op == "s0":
        tc.stabilize(0)
    elif op == "cx01":
        tc.cx(0, 1)
    elif op == "cx10":
        tc.cx(1, 0)
    elif op == "mz1":
        tc.measure_z(1)
    elif op == "x0":
        treg[0].x()
        treg[1].cx(control=ext[0])
    elif op == "cxA":
        tc.cx(0, 1, "XXZZ", {"d": (3, 1)})


BAD = {
    # mismatched / unknown types
    "mismatch": lambda r, t, e: r.add_tqubits("data", ["XXZZ", "XZZX"], [{"d": 3}]),
    "mismatch-new": lambda r, t, e: r.add_tqubits("fresh", ["XXZZ"], []),
    "mismatch2": lambda r, t, e: r.add_tqubits("more", [], [{"d": 3}]),
    "ctor-mismatch": lambda r, t, e: TopologicalRegister(circ=r.circ, ctypes=["XXZZ"], params=[], name="n2"),
    "ctor-unknown": lambda r, t, e: TopologicalRegister(circ=r.circ, ctypes=["XXZZ", "Foo"], params=[{}, {}], name="n2"),
    "ctor-even": lambda r, t, e: TopologicalRegister(circ=r.circ, ctypes=["XXZZ", "XZZX"],
                                                     params=[{"d": 3}, {"d": 4}], name="n2"),
    "unknown": lambda r, t, e: r.add_tqubit("data", "Foo", {"d": 3}),
    "unknown-new": lambda r, t, e: r.add_tqubit("fresh", "Foo", {"d": 3}),
    "unknown-list": lambda r, t, e: r.add_tqubits("data", ["XXZZ", "Foo"], [{"d": 3}, {"d": 3}]),
    "unknown-list-new": lambda r, t, e: r.add_tqubits("fresh", ["Repetition", "Foo"], [{"d": 3}, {"d": 3}]),
    # sizes
    "even": lambda r, t, e: r.add_tqubit("data", "XXZZ", {"d": 4}),
    "even-new": lambda r, t, e: r.add_tqubit("fresh", "XZZX", {"d": (3, 4)}),
    "even-list": lambda r, t, e: r.add_tqubits("data", ["XXZZ", "XZZX"], [{"d": 3}, {"d": (2, 3)}]),
    "even-list-new": lambda r, t, e: r.add_tqubits("fresh", ["Repetition", "Repetition"], [{"d": 3}, {"d": 2}]),
    "zero": lambda r, t, e: r.add_tqubit("more", "XXZZ", {"d": 0}),
    "negative": lambda r, t, e: r.add_tqubit("data", "XXZZ", {"d": (-3, 3)}),
    "rep-plane": lambda r, t, e: r.add_tqubit("data", "Repetition", {"d": (3, 3)}),
    "rep-plane-new": lambda r, t, e: r.add_tqubit("fresh", "Repetition", {"d": (3, 1), "phase-flip-protected": True}),
    "rep-text": lambda r, t, e: r.add_tqubits("data", ["XXZZ", "Repetition"], [{"d": 3}, {"d": "x"}]),
    "qubit-even": lambda r, t, e: QUBITS["XXZZ"]({"d": 2}, name="zz", circ=r.circ),
    "qubit-even2": lambda r, t, e: QUBITS["XZZX"]({"d": (5, 2)}, name="zz", circ=r.circ),
    "qubit-rep": lambda r, t, e: QUBITS["Repetition"]({"d": (1, 3)}, name="zz", circ=r.circ),
    # indices
    "index": lambda r, t, e: r[99],
    "index-neg": lambda r, t, e: r[-1],
    "index-sub": lambda r, t, e: r["nosuch"],
    "op-s": lambda r, t, e: t.stabilize(99),
    "op-x": lambda r, t, e: t.x(99),
    "op-z": lambda r, t, e: t.z(99),
    "op-id": lambda r, t, e: t.id(99),
    "op-idd": lambda r, t, e: t.id_data(99),
    "op-rz": lambda r, t, e: t.reset_z(99),
    "op-rx": lambda r, t, e: t.reset_x(99),
    "op-mz": lambda r, t, e: t.measure_z(99),
    "op-mx": lambda r, t, e: t.measure_x(99),
    "op-lz": lambda r, t, e: t.measure_lattice_z(99),
    "op-lx": lambda r, t, e: t.measure_lattice_x(99),
    "op-parse": lambda r, t, e: t.parse_readout(99, "0 00 00"),
    "cx-target": lambda r, t, e: t.cx(0, 99),
    "cx-control": lambda r, t, e: t.cx(99, 0),
    "cx-both": lambda r, t, e: t.cx(98, 99),
    "cx-target-anc": lambda r, t, e: t.cx(0, 99, "XXZZ", {"d": 3}),
    # ancilla choices
    "anc-type-only": lambda r, t, e: t.cx(0, 1, "XXZZ"),
    "anc-type-only-kw": lambda r, t, e: t.cx(0, 1, ancilla_ctype="Repetition"),
    "anc-params-only": lambda r, t, e: t.cx(1, 0, ancilla_params={"d": 3}),
    "anc-params-empty": lambda r, t, e: t.cx(1, 0, ancilla_params={}),
    "!anc-unknown": lambda r, t, e: t.cx(0, 1, "Foo", {"d": 3}),
    "!anc-even": lambda r, t, e: t.cx(0, 1, "XXZZ", {"d": 4}),
    "!anc-rep": lambda r, t, e: t.cx(1, 0, "Repetition", {"d": (3, 3)}),
    # ambiguous CNOT operands
    "cnot-none": lambda r, t, e: r[0].cx(),
    "cnot-none-x": lambda r, t, e: r[1].cx(None, None),
    "cnot-both": lambda r, t, e: r[0].cx(control=e[0], target=e[1]),
    "cnot-both-x": lambda r, t, e: r[1].cx(e[0], e[1]),
    # operands that are not on the circuit, impossible conditions
    "cnot-foreign-control": lambda r, t, e: r[0].cx(control=FOREIGN_Q[0]),
    "cnot-foreign-control-x": lambda r, t, e: r[1].cx(control=FOREIGN_Q[1]),
    "cnot-foreign-target": lambda r, t, e: r[0].cx(target=FOREIGN_Q[0]),
    "cnot-foreign-target-x": lambda r, t, e: r[1].cx(target=FOREIGN_Q[1]),
    "cif-foreign": lambda r, t, e: r[0].x_c_if(FOREIGN_C, 1),
    "cif-foreign-x": lambda r, t, e: r[1].x_c_if(FOREIGN_C, 1),
    "cif-foreign-z": lambda r, t, e: r[0].z_c_if(FOREIGN_C, 0),
    "cif-foreign-zx": lambda r, t, e: r[1].z_c_if(FOREIGN_C, 0),
    "cif-negative": lambda r, t, e: r[1].x_c_if(r.circ.cregs[0], -1),
    "cif-negative-z": lambda r, t, e: r[0].z_c_if(r.circ.cregs[0], -2),
    "read-foreign": lambda r, t, e: t.measure_z(0, FOREIGN_C),
    "read-foreign-x": lambda r, t, e: t.measure_x(1, FOREIGN_C),
    "read-foreign-qz": lambda r, t, e: r[1].readout_z(FOREIGN_C),
    "read-foreign-qx": lambda r, t, e: r[0].readout_x(readout_creg=FOREIGN_C),
    # extra registers whose name is taken
    "creg-taken": lambda r, t, e: t.add_creg(1, "cext"),
    "creg-taken-override": lambda r, t, e: t.add_creg(2, "cext", override=True),
    "qreg-taken": lambda r, t, e: t.add_qreg(1, "ext"),
    "qreg-taken-override": lambda r, t, e: t.add_qreg(3, "ext", override=True),
    "creg-qname": lambda r, t, e: t.add_creg(1, r.name + "_0_data"),
    "qreg-own": lambda r, t, e: t.add_qreg(1, r.name + "_1_ancilla"),
    "creg-override": lambda r, t, e: t.add_creg(1, "mine", override=True),
    "qreg-override": lambda r, t, e: t.add_qreg(1, "mineq", override=True),
    # the library's own registers, where the user took the name
    "round-taken": lambda r, t, e: t.stabilize(1),
    "round-taken-q": lambda r, t, e: r[1].stabilize(),
    "readout-taken": lambda r, t, e: t.measure_x(0),
    "readout-taken-z": lambda r, t, e: r[0].readout_z(),
    "lattice-taken": lambda r, t, e: t.measure_lattice_z(1),
    "lattice-taken-x": lambda r, t, e: r[1].lattice_readout_x(),
    "lattice-taken-0": lambda r, t, e: r[0].lattice_readout_z(),
    "lattice-taken-0x": lambda r, t, e: t.measure_lattice_x(0),
    "ctor-taken": lambda r, t, e: TopologicalRegister(circ=r.circ, ctypes=["Repetition", "XXZZ"],
                                                      params=[{"d": 3}, {"d": 3}], name="taken"),
    "qubit-taken": lambda r, t, e: QUBITS["XXZZ"]({"d": 3}, name="taken_1", circ=r.circ),
    "qubit-taken-x": lambda r, t, e: QUBITS["XZZX"]({"d": (1, 3)}, name="taken_1", circ=r.circ),
    "qubit-taken-r": lambda r, t, e: QUBITS["Repetition"]({"d": (1, 3), "phase-flip-protected": True},
                                                          name="taken_1", circ=r.circ),
    "qubit-same-name": lambda r, t, e: QUBITS["XZZX"]({"d": 3}, name=r.name + "_0", circ=r.circ),
    # operands from elsewhere
    "cx-elsewhere": lambda r, t, e: t.cx(0, ELSEWHERE),
    "cx-elsewhere-c": lambda r, t, e: t.cx(ELSEWHERE, 1),
    "cx-elsewhere-anc": lambda r, t, e: t.cx(0, ELSEWHERE, "XXZZ", {"d": 3}),
    "cx-none": lambda r, t, e: t.cx(0, None),
    "cx-text": lambda r, t, e: t.cx(r[1], "0"),
    "cx-none-c": lambda r, t, e: t.cx(None, 0),
    "creg-negative": lambda r, t, e: t.add_creg(-1, "neg"),
    "qreg-negative": lambda r, t, e: t.add_qreg(-1, "negq"),
}
ELSEWHERE = QUBITS["XXZZ"]({"d": (3, 1)}, name="elsewhere")
FOREIGN_Q = QuantumRegister(2, "foreign_q")
FOREIGN_C = ClassicalRegister(1, "foreign_c")


def cases(tier):
    th = tier == "thorough"
    L = 4 if th else 3
    progs = [p for n in range(0, L) for p in product(VALID, repeat=n)]
    for p in progs:
        for b in BAD:
            yield {"prog": list(p), "bad": [b]}
    pairs = list(combinations(BAD, 2)) + [(b, b) for b in BAD]
    for p in [(), ("cx01",), ("addB",), ("s0",)] + ([("cx01", "addX"), ("addX", "cx10")] if th else []):
        for a, b in pairs:
            yield {"prog": list(p), "bad": [a, b]}
    # refused requests on everything at once, repeated
    for p in product(VALID, repeat=2):
        yield {"prog": list(p), "bad": list(BAD)}


def execute(prog, bad_at, st):
    treg, tc, ext = t_start()
    for i in range(len(prog) + 1):
        for b in bad_at.get(i, ()):
            if b[0] == "!" and "ancilla" in treg.tqubits:
                continue
            before = (snap.circuit(tc.circ), snap.register(treg))
            named = {k: id(v) for d in (tc.creg, tc.qreg) for k, v in d.items()}
            try:
                BAD[b](treg, tc, ext)
            except Exception:
                pass
            else:
                return None, f"request {b} was not refused"
            st["refused"] += 1
            if snap.register(treg) != before[1]:
                return None, f"refused request {b} changed the register: {before[1]} -> {snap.register(treg)}"
            if snap.circuit(tc.circ) != before[0]:
                return None, f"refused request {b} changed the circuit"
            if named != {k: id(v) for d in (tc.creg, tc.qreg) for k, v in d.items()}:
                return None, f"refused request {b} changed the circuit's named registers"
        if i < len(prog):
            v_apply(prog[i], treg, tc, ext)
    return snap.circuit(tc.circ), None


def run_case(spec, st):
    prog = spec["prog"]
    clean, e = execute(prog, {}, st)
    assert e is None
    n = len(prog) + 1
    if len(spec["bad"]) == 1:
        plans = [{i: [spec["bad"][0]]} for i in range(n)]
    elif len(spec["bad"]) == 2:
        a, b = spec["bad"]
        plans = []
        for i in range(n):
            for j in range(n):
                plans.append({i: [a, b]} if i == j else {i: [a], j: [b]})
    else:
        plans = [{i: spec["bad"] for i in range(n)}]
    for plan in plans:
        st["evaluations"] += 1
        before = st["refused"]
        got, e = execute(prog, plan, st)
        if e:
            return f"at {plan}: {e}"
        st["nontrivial"] += st["refused"] > before
        if got != clean:
            return f"after refused requests {plan} the program builds a different circuit"
    return None
