"""
C08: the circuit-level logical CNOT is an ideal CNOT for every pair of codes.

Every word of preparations, logical gates, rounds and CNOTs between encoded qubits is executed on the real
circuit (all branches) and on ideal qubits; joint distributions of all readouts agree for every choice of final
bases, rounds keep reporting the same syndromes.
"""
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from .. import aer, hist
from ..codes import Code
from ..interp import run_all_branches
from ..lin import same
from ..tableau import Tableau

LEVEL = "model_checking"
RULE = ("every pair of codes in bounds x ancilla choice x every word over {prep, x, z, s, CNOT both ways} with at least "
        "one CNOT up to the bound x all preparations x all final basis pairs; triples of small codes with CNOTs between "
        "every pair; states = histories, transitions = executed circuit steps")
ASSUMPTIONS = ["noiseless execution"]

KINDS = [Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XXZZ", 3, 3), Code("XZZX", 3, 3)]
MORE = [Code("RepB", 5, 1), Code("RepP", 1, 5), Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("XZZX", 3, 1),
        Code("XZZX", 1, 3), Code("XXZZ", 1, 3), Code("XXZZ", 3, 1)]
EXTRA = [Code("XXZZ", 5, 5), Code("XZZX", 5, 5), Code("XXZZ", 5, 3), Code("XZZX", 3, 5), Code("RepB", 7, 1),
         Code("XXZZ", 1, 1)]
PREPS = [a + b for a in "zx" for b in "zx"]


def nontrivial(w):
    return any(l.startswith("c") for l in w)


def cases(tier):
    th = tier == "thorough"
    tiny = [Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XZZX", 3, 1), Code("XXZZ", 1, 3)]
    letters = ["x0", "z0", "x1", "z1", "c01", "c10", "s0", "s1", "rz0", "rx0", "rz1", "rx1"]
    # pairs of small codes: all words of three letters
    for a in tiny[:2]:
        for b in tiny[:2]:
            for w in hist.sequences(letters, 3, 3):
                if nontrivial(w):
                    yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": list(w)}
    # every pair of kinds
    for a in KINDS:
        for b in KINDS:
            for w in hist.sequences(["x0", "z1", "z0", "x1", "c01", "c10", "rx0"], 3 if th else 2, 1):
                if nontrivial(w) and (th or len(w) == 1 or a.n + b.n < 18):
                    yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": list(w)}
            for w in (["c01", "c10", "c01"], ["c01", "s0", "c01"], ["c01", "s1", "c10", "x0", "c01", "z1"],
                      ["c01", "rz1", "c01"], ["c01"] * 4, ["c10", "c01"] * 3):
                yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": w}
    for a in MORE + (EXTRA if th else EXTRA[3:]):
        for b in KINDS + MORE:
            for w in (["c01"], ["c10"], ["c01", "c10"], ["c01", "c01"]):
                yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": w}
    # larger lattices as control, target and ancilla
    large = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((9, 9), (3, 11), (11, 3), (1, 15), (15, 1))]
    large += [Code("RepB", 17, 1), Code("RepP", 1, 17)]
    for k, a in enumerate(large):
        for b in KINDS[:2] + [KINDS[2 + k % 2]]:
            yield {"codes": [a.spec, b.spec], "preps": ["zx", "xz", "zz", "xx"], "w": ["c01", "s0", "c10"]}
            yield {"codes": [b.spec, a.spec], "preps": ["xz"], "w": ["c01", "x1", "c10"]}
            yield {"codes": [b.spec, KINDS[k % 4].spec], "preps": ["xz", "zx"], "w": ["c01", "c10"], "anc": a.spec}
    # ancilla choices
    for a in KINDS:
        for b in KINDS:
            for anc in KINDS + MORE:
                yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": ["c01", "c10"], "anc": anc.spec}
                yield {"codes": [a.spec, b.spec], "preps": ["zx", "xz"], "w": ["c01", "x1", "c01"], "anc": anc.spec,
                       "late": True}
    # three encoded qubits
    cn = ["c01", "c12", "c20", "c10", "c02", "c21"]
    for trip in ([0, 0, 0], [0, 1, 0], [1, 0, 1], [0, 2, 1], [2, 3, 0]):
        cs = [KINDS[i].spec for i in trip]
        for w in hist.sequences(cn, 3 if max(trip) < 2 or th else 2, 2):
            yield {"codes": cs, "preps": ["zzz", "xzz", "zxz", "xxz", "zzx", "xxx"], "w": list(w)}
    # qubits addressed as objects, ancillas provided by the user, qubits added to the register later
    for a in KINDS:
        for b in KINDS:
            for addr in ("obj", "mixed"):
                yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": ["c01", "x1", "c10", "z0"], "addr": addr}
            for own in ([KINDS[0]], [KINDS[3]], [KINDS[1], KINDS[2]], [MORE[5], MORE[4]]):
                for late in (1, 2):
                    yield {"codes": [a.spec, b.spec], "preps": ["zx", "xz"], "w": ["c01", "s0", "c10"], "addr": "mixed",
                           "own": [o.spec for o in own], "at": late}
            if a.n + b.n < 18 or th:
                for k in (0, 1, 2):
                    c = KINDS[(k + a.n) % 2 if not th else k]
                    yield {"codes": [a.spec, b.spec, c.spec], "preps": ["zxz", "xzz", "xxz", "zzx"], "w":
                           ["c01", "+", "c12", "c20"], "join": 2, "addr": ("int", "obj", "mixed")[k]}
    # two registers of encoded qubits and the user's registers on one circuit, CNOTs inside and across registers
    for a in KINDS:
        for b in KINDS:
            for w in (["c01", "c10"], ["c10", "x0", "c01", "c01"]):
                yield {"codes": [a.spec, b.spec], "preps": PREPS, "w": w, "regs": "01"}
    for k, (a, b) in enumerate([(KINDS[0], KINDS[1]), (KINDS[1], KINDS[0]), (KINDS[0], KINDS[0])] + (
            [(KINDS[2], KINDS[0]), (KINDS[3], KINDS[1])] if th else [])):
        for w in (["c01", "c23", "c12"], ["c23", "c01", "s1", "c23"], ["c03", "c12", "x1", "c01"]):
            for regs in ("0011", "0101"):
                yield {"codes": [a.spec, b.spec, a.spec, KINDS[0].spec], "preps": ["zzzz", "xzxz", "zxxz"], "w": w,
                       "regs": regs}
    # long histories of CNOTs (registers reused)
    for a in KINDS[:2]:
        for w in (["c01", "c10"] * 6, ["c01", "s0", "s1"] * 5, ["c01", "x0", "c10", "z1"] * 3):
            yield {"codes": [a.spec, KINDS[1].spec], "preps": PREPS, "w": w}
    for a in KINDS:
        yield {"codes": [a.spec, KINDS[0].spec], "preps": ["xz"], "w": ["c01"], "aer": True}
        yield {"codes": [KINDS[1].spec, a.spec], "preps": ["zx"], "w": ["c10", "x0"], "aer": True}


def build(cs, prep, word, final, anc, late, spec):
    own, at, join, addr = (spec.get(k, d) for k, d in (("own", []), ("at", 0), ("join", len(cs)), ("addr", "int")))
    regs = spec.get("regs")
    if regs:
        circ = QuantumCircuit(QuantumRegister(1, "cnot_readout"), ClassicalRegister(1, "m1"), ClassicalRegister(1, "m3"))
        circ.x(0)
        circ.measure(0, 1)
        tregs = [TopologicalRegister(circ=circ, name="r" + k) for k in "01"]
        where = []
        for r, c in zip(regs, cs):
            where.append(tregs[int(r)].n)
            tregs[int(r)].add_tqubit("data", c.ctype, c.params())
        tcs = [TopologicalCircuit(t) for t in tregs]
    elif own:
        treg = TopologicalRegister()
        where = []
        for i, c in enumerate(cs):
            if i == at:
                treg.add_tqubits("ancilla", [Code.of(o).ctype for o in own], [Code.of(o).params() for o in own])
            where.append(treg.n)
            treg.add_tqubit("data", c.ctype, c.params())
        if at == len(cs):
            treg.add_tqubits("ancilla", [Code.of(o).ctype for o in own], [Code.of(o).params() for o in own])
    else:
        treg = TopologicalRegister(ctypes=[c.ctype for c in cs[:join]], params=[c.params() for c in cs[:join]])
        where = list(range(join))
    if not regs:
        tcs = [TopologicalCircuit(treg)]
    tc = tcs[0]
    circ = tc.circ
    obs = []
    rounds = [[] for _ in cs]
    used = [0]

    def Q(i):
        """The i-th data qubit, as the index or as the object."""
        used[0] += 1
        if regs:
            return tregs[int(regs[i])][where[i]]
        if addr == "obj" or addr == "mixed" and used[0] % 2:
            return treg[where[i]]
        return where[i]

    def stab(i):
        b = circ.num_clbits
        tc.stabilize(Q(i))
        rounds[i][-1].append(list(range(b, circ.num_clbits)))

    def measure(i, basis):
        b = circ.num_clbits
        (tc.measure_z if basis == "z" else tc.measure_x)(Q(i))
        obs.extend(range(b, circ.num_clbits))

    def preparation(i, basis):
        rounds[i].append([])
        (tc.reset_z if basis == "z" else tc.reset_x)(Q(i))

    for i, p in enumerate(prep[:join]):
        preparation(i, p)
        stab(i)
    ncx = 0
    for l in word:
        if l == "+":
            i = len(where)
            where.append(treg.n)
            treg.add_tqubit("data", cs[i].ctype, cs[i].params())
            preparation(i, prep[i])
            stab(i)
        elif l[0] == "c":
            i, j = int(l[1]), int(l[2])
            ncx += 1
            if regs:
                tc = tcs[int(regs[(i, j)[ncx % 2]])]
                same_reg = regs[i] == regs[j] and ncx % 2
                tc.cx(where[i] if same_reg else Q(i), where[j] if same_reg else Q(j))
            elif anc is not None and (not late or ncx == 1):
                tc.cx(Q(i), Q(j), ancilla_ctype=anc.ctype, ancilla_params=anc.params())
            else:
                tc.cx(Q(i), Q(j))
        elif l[0] == "r":
            preparation(int(l[2]), l[1])
            stab(int(l[2]))
        elif l[0] == "s":
            stab(int(l[1]))
        elif l[0] == "x":
            tc.x(Q(int(l[1])))
        else:
            tc.z(Q(int(l[1])))
    for i in range(len(cs)):
        stab(i)
    for i, b in enumerate(final):
        measure(i, b)
    # still usable: another round, gate and readout
    for i, b in enumerate(final):
        stab(i)
        tc.x(Q(i)) if b == "z" else tc.z(Q(i))
        measure(i, b)
    if regs:
        obs.append(1)
    return circ, obs, rounds


def ideal(n, prep, word, final):
    t = Tableau(n)
    out = []

    def p(i, b):
        t.reset(i)
        if b == "x":
            t.h(i)

    def m(i, b):
        if b == "x":
            t.h(i)
        out.append(t.measure(i))
        if b == "x":
            t.h(i)

    for i, b in enumerate(prep):
        p(i, b)
    for l in word:
        if l[0] == "c":
            t.cx(int(l[1]), int(l[2]))
        elif l[0] == "r":
            p(int(l[2]), l[1])
        elif l[0] == "x":
            t.X(int(l[1]))
        elif l[0] == "z":
            t.Z(int(l[1]))
    for i, b in enumerate(final):
        m(i, b)
    for i, b in enumerate(final):
        (t.X if b == "z" else t.Z)(i)
        m(i, b)
    return out


def finals(n):
    out = [""]
    for _ in range(n):
        out = [f + b for f in out for b in "zx"]
    return out


def run_case(spec, st):
    cs = [Code.of(s) for s in spec["codes"]]
    anc = Code.of(spec["anc"]) if spec.get("anc") else None
    if spec.get("aer"):
        circ, _, _ = build(cs, spec["preps"][0], spec["w"], "zz", None, False, spec)
        return aer.conform(circ, st, 16)
    for prep in spec["preps"]:
        for final in finals(len(cs)):
            circ, obs, rounds = build(cs, prep, spec["w"], final, anc, spec.get("late"), spec)
            want = ideal(len(cs), prep, spec["w"], final)
            if spec.get("regs"):
                want = want + [1]  # the bit the user measured into a register of his own
            runs = list(run_all_branches(circ))
            if not same(runs, obs, want_forms=want):
                return f"prep {prep}, final bases {final}: joint readouts differ from those of an ideal CNOT"
            for res in runs:
                st["states"] += 1
                st["transitions"] += res.steps
                for i, groups in enumerate(rounds):
                    for g in groups:
                        f = [[res.cl[b] for b in bits] for bits in g]
                        if any(x != f[0] for x in f):
                            return f"prep {prep}: the syndromes of encoded qubit {i} changed"
            st["traces"] += 1
    return None
