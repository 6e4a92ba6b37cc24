"""
C07: conditioned logical gates and physical-logical CNOTs are exact.

Every word over logical gates, conditioned gates, CNOTs with external qubits, external gates, measurements and
rounds is run on the real circuit and on the same circuit with an ideal qubit in place of the encoded one; the
joint distribution of all readouts (both bases, both parties) must agree and all rounds must report the same
syndromes.
"""
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister

from .. import aer, hist
from ..codes import Code
from ..interp import run_all_branches
from ..lin import same

LEVEL = "model_checking"
RULE = ("every word up to the bound over the operations, after each preparation of the encoded and external qubits, "
        "with each pair of final readout bases; every register width/value pair for conditioned gates; for every "
        "code in bounds; states = histories, transitions = executed circuit steps")
ASSUMPTIONS = ["noiseless execution",
               "gates act on states prepared in the code space (a preparation comes first)"]

LETTERS = ["x", "z", "s", "ce", "te", "he", "me", "mz", "mx", "mzk", "mxk", "xc0", "xc1", "zc0", "zc1"]
CORE = ["ce", "te", "he", "xc1", "zc1", "me", "mzk"]


def codes(th):
    small = [Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XZZX", 1, 3), Code("XZZX", 3, 1), Code("XXZZ", 1, 1),
             Code("XZZX", 1, 1)]
    mid = [Code("XXZZ", 3, 3), Code("XZZX", 3, 3)]
    big = [Code("RepB", 5, 1), Code("RepP", 1, 5), Code("XXZZ", 1, 3), Code("XXZZ", 3, 1), Code("XZZX", 1, 5),
           Code("XZZX", 5, 1)]
    big += [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((3, 5), (5, 3), (5, 5), (7, 3), (3, 7))]
    big += [Code("RepB", 7, 1), Code("RepP", 1, 7), Code("RepB", 11, 1), Code("RepP", 1, 11)]
    return small, mid, big


def cases(tier):
    th = tier == "thorough"
    small, mid, big = codes(th)
    for group, L in ((small, 4 if th else 3), (mid, 3 if th else 2), (big, 3 if th else 2)):
        for c in group:
            for prep in ("rz", "rx"):
                for w in hist.sequences(LETTERS, L, 1):
                    if not any(l in ("ce", "te", "xc0", "xc1", "zc0", "zc1") for l in w):
                        continue
                    if len(w) == L or L == 1:
                        yield {"code": c.spec, "prep": prep, "w": list(w)}
    # longer words over the entangling core
    for c in small[:4] + mid[:2]:
        for w in hist.sequences(CORE, 5 if th else 4 if c in small else 3, 3):
            yield {"code": c.spec, "prep": "rz", "w": list(w)}
    # conditioned gates: register widths and values
    for c in small + mid + big:
        for width in (1, 2, 3):
            for value in range(1 << width):
                for val in range(1 << width):
                    for gate in ("x", "z"):
                        for rnd in (None,) + tuple(range(width)):
                            yield {"code": c.spec, "cond": [width, value, val, gate, rnd]}
    # wide registers: the exact value, every one-bit difference, and the extreme values
    for c in (small[:4] + mid if th else [small[0], small[2], mid[0], mid[1]]):
        for width in (4, 5, 6, 9):
            vals = range(1 << width) if width == 4 else sorted(
                {0, 1, (1 << width) - 1, 1 << (width - 1), 5, 10, (1 << width) - 2, (1 << width) // 3})
            for val in vals:
                for value in sorted({val, 0, (1 << width) - 1} | {val ^ 1 << b for b in range(width)}):
                    for gate in ("x", "z"):
                        for rnd in (None,) if width > 4 or val % 3 else (None, width - 1):
                            yield {"code": c.spec, "cond": [width, value, val, gate, rnd]}
    # larger registers of external qubits: CNOTs with several different qubits
    for c in small + mid:
        for w in hist.sequences(["ce0", "te0", "ce1", "te1", "he0", "he1"], 3, 2):
            yield {"code": c.spec, "two": list(w)}
    # larger lattices
    large = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((9, 9), (3, 11), (11, 3), (1, 17), (17, 1))]
    large += [Code("RepB", 21, 1), Code("RepP", 1, 21)] + ([Code("XXZZ", 13, 13), Code("XZZX", 13, 13)] if th else [])
    for c in large:
        for prep in ("rz", "rx"):
            for w in (["he", "ce", "te"], ["te", "he", "ce", "s"], ["he", "me", "xc1", "zc1"], ["ce", "s", "te", "ce"],
                      ["x", "z", "te", "ce", "xc0", "zc0"]):
                yield {"code": c.spec, "prep": prep, "w": w}
        for value in range(4):
            for val in range(4):
                for gate in ("x", "z"):
                    yield {"code": c.spec, "cond": [2, value, val, gate, None]}
        yield {"code": c.spec, "two": ["he0", "ce0", "te1", "ce1"]}
    for c in [Code("XXZZ", 3, 3), Code("XZZX", 3, 3), Code("RepB", 3, 1), Code("XZZX", 3, 5)]:
        yield {"code": c.spec, "prep": "rz", "w": ["he", "ce", "me", "xc1", "zc1", "te", "mzk", "xc1"], "aer": True}


class Ideal:
    """The same operations with one bare qubit instead of the encoded one."""

    def __init__(self, circ):
        self.circ = circ
        self.q = QuantumRegister(1, "L")
        circ.add_register(self.q)
        self.k = 0

    def bit(self):
        self.k += 1
        r = ClassicalRegister(1, f"r{self.k}")
        self.circ.add_register(r)
        return r

    def reset_z(self):
        self.circ.reset(self.q[0])

    def reset_x(self):
        self.circ.reset(self.q[0])
        self.circ.h(self.q[0])

    def x(self):
        self.circ.x(self.q[0])

    def z(self):
        self.circ.z(self.q[0])

    def stabilize(self):
        pass

    def x_c_if(self, r, v):
        self.circ.x(self.q[0]).c_if(r, v)

    def z_c_if(self, r, v):
        self.circ.z(self.q[0]).c_if(r, v)

    def cx(self, control=None, target=None):
        if control is not None:
            self.circ.cx(control, self.q[0])
        else:
            self.circ.cx(self.q[0], target)

    def readout_z(self, readout_creg=None):
        self.circ.measure(self.q[0], (readout_creg or self.bit())[0])

    def readout_x(self, readout_creg=None):
        r = readout_creg or self.bit()
        self.circ.h(self.q[0])
        self.circ.measure(self.q[0], r[0])
        self.circ.h(self.q[0])


def build(c, spec, final, real):
    circ = QuantumCircuit()
    ext = QuantumRegister(max(3, spec.get("cond", [0])[0]), "ext")
    kreg = ClassicalRegister(1, "k")
    circ.add_register(ext)
    circ.add_register(kreg)
    q = c.qubit(circ=circ) if real else Ideal(circ)
    obs, rounds = [], []

    def new(fn):
        b = circ.num_clbits
        fn()
        obs.extend(range(b, circ.num_clbits))

    def stab():
        b = circ.num_clbits
        q.stabilize()
        if real:
            rounds.append(list(range(b, circ.num_clbits)))

    def measure_ext(i, basis, n=[0]):
        n[0] += 1
        r = ClassicalRegister(1, f"e{circ.num_clbits}")
        circ.add_register(r)
        if basis == "X":
            circ.h(ext[i])
        circ.measure(ext[i], r[0])
        obs.append(circ.find_bit(r[0]).index)

    if "cond" in spec:
        width, value, val, gate, rnd = spec["cond"]
        creg = ClassicalRegister(width, "cond")
        circ.add_register(creg)
        for b in range(width):
            if value >> b & 1:
                circ.x(ext[b])
            if rnd == b:
                circ.h(ext[b])
            circ.measure(ext[b], creg[b])
            obs.append(circ.find_bit(creg[b]).index)
        (q.reset_z if gate == "x" else q.reset_x)()
        stab()
        (q.x_c_if if gate == "x" else q.z_c_if)(creg, val)
        stab()
        new(q.readout_z if gate == "x" else q.readout_x)
        new(q.readout_x if gate == "x" else q.readout_z)
        return circ, obs, rounds
    if "two" in spec:
        q.reset_z()
        stab()
        circ.h(ext[0])
        for l in spec["two"]:
            e = ext[int(l[-1])]
            if l[:2] == "ce":
                q.cx(control=e)
            elif l[:2] == "te":
                q.cx(target=e)
            else:
                circ.h(e)
        stab()
        for i in (0, 1):
            measure_ext(i, final[1])
        new(q.readout_z if final[0] == "Z" else q.readout_x)
        return circ, obs, rounds

    (q.reset_z if spec["prep"] == "rz" else q.reset_x)()
    stab()
    for l in spec["w"]:
        if l == "x":
            q.x()
        elif l == "z":
            q.z()
        elif l == "s":
            stab()
        elif l == "ce":
            q.cx(control=ext[0])
        elif l == "te":
            q.cx(target=ext[0])
        elif l == "he":
            circ.h(ext[0])
        elif l == "me":
            circ.measure(ext[0], kreg[0])
        elif l == "mz":
            new(q.readout_z)
        elif l == "mx":
            new(q.readout_x)
        elif l == "mzk":
            q.readout_z(readout_creg=kreg)
        elif l == "mxk":
            q.readout_x(readout_creg=kreg)
        else:
            (q.x_c_if if l[0] == "x" else q.z_c_if)(kreg, int(l[2]))
    stab()
    obs.append(0)  # register k
    measure_ext(0, final[1])
    new(q.readout_z if final[0] == "Z" else q.readout_x)
    new(q.readout_x if final[0] == "Z" else q.readout_z)
    return circ, obs, rounds


def run_case(spec, st):
    c = Code.of(spec["code"])
    if spec.get("aer"):
        return aer.conform(build(c, spec, "ZZ", True)[0], st, 32)
    finals = ["ZZ"] if "cond" in spec else ["ZZ", "ZX", "XZ", "XX"]
    for final in finals:
        rc, robs, rounds = build(c, spec, final, True)
        ic, iobs, _ = build(c, spec, final, False)
        if len(robs) != len(iobs):
            return f"{len(robs)} observed bits instead of {len(iobs)}"
        runs = list(run_all_branches(rc))
        st["states"] += 1
        st["traces"] += 1
        st["transitions"] += sum(r.steps for r in runs)
        if not same(runs, robs, want_runs=list(run_all_branches(ic)), want_obs=iobs):
            return f"final bases {final}: the joint distribution of the readouts is not that of an ideal qubit"
        for r in runs:
            f = [[r.cl[b] for b in bits] for bits in rounds]
            if any(x != f[0] for x in f):
                return "the syndromes changed"
    return None
