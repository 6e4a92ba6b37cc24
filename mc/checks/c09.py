"""
C09: encoded qubits sharing a circuit do not interfere.

All interleavings of bounded per-qubit programs are executed; the part of the circuit that touches one encoded
qubit must be, operation for operation and register for register, the circuit that qubit builds alone, every
operation must touch nothing else, and every way of addressing a qubit must be equivalent.
"""
from itertools import product

from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from .. import aer, hist
from ..codes import Code, QUBITS, all_of
from ..interp import compile_circuit, run
from ..lin import relations
from ..snap import instr

LEVEL = "model_checking"
RULE = ("every assignment of code types to the encoded qubits in bounds x every per-qubit program up to the bound x "
        "every interleaving x addressing mode (index, object, method, alternating, several registers on one circuit); every insertion order into "
        "sub-registers; states = interleavings executed, transitions = logical operations")
ASSUMPTIONS = ["barriers carry no behaviour"]

OPS = ["rz", "rx", "x", "z", "s", "id", "idd", "mz", "mx", "lz", "lx", "Mz", "Mx"]
TC = {"rz": "reset_z", "rx": "reset_x", "x": "x", "z": "z", "s": "stabilize", "id": "id", "idd": "id_data",
      "mz": "measure_z", "mx": "measure_x", "Mz": "measure_z", "Mx": "measure_x", "lz": "measure_lattice_z", "lx": "measure_lattice_x"}
KINDS = [Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XXZZ", 3, 3), Code("XZZX", 3, 3)]
MORE = [Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("RepB", 7, 1), Code("RepP", 1, 5), Code("XZZX", 1, 3),
        Code("XXZZ", 5, 5)]
MODES = ["index", "object", "method", "mix", "direct", "regs"]


def merges(lens):
    """All interleavings of len(lens) sequences, as tuples of sequence numbers."""
    if not any(lens):
        yield ()
        return
    for i, n in enumerate(lens):
        if n:
            rest = list(lens)
            rest[i] -= 1
            for m in merges(rest):
                yield (i,) + m


def cases(tier):
    th = tier == "thorough"
    pairs = list(product(range(4), repeat=2))
    # every pair of operations words of length 2 on two small codes, all interleavings
    for a, b in ([(0, 0), (0, 1), (1, 3), (2, 2)] if th else [(0, 0), (1, 3)]):
        for wa in product(OPS, repeat=2):
            for wb in product(OPS, repeat=2 if th else 1):
                yield {"codes": [KINDS[a].spec, KINDS[b].spec], "words": [list(wa), list(wb)],
                       "modes": ["mix"] if not th else MODES}
    core = [["s", "s", "mz"], ["rz", "s", "mz"], ["s", "mx", "s"], ["rx", "idd", "s"], ["mz", "mz", "lz"],
            ["x", "s", "lx"], ["id", "z", "s"]]
    for a, b in pairs:
        for wa in core:
            for wb in core if th else core[1::2]:
                yield {"codes": [KINDS[a].spec, KINDS[b].spec], "words": [wa, wb],
                       "modes": MODES if th else ["index", "object"] if (a + b) % 2 else ["method", "mix", "regs"]}
    short = [["s", "mz"], ["rx", "s"], ["lz", "s"], ["id", "mx"]]
    for trip in product(range(4), repeat=3):
        for ws in product(short, repeat=3) if th or max(trip) < 2 else [(short[0], short[1], short[2]),
                                                                      (short[3], short[0], short[0])]:
            yield {"codes": [KINDS[i].spec for i in trip], "words": [list(w) for w in ws], "modes": ["mix"]}
    for a in MORE:
        for b in KINDS + MORE:
            yield {"codes": [a.spec, b.spec], "words": [["rz", "s", "mz"], ["rx", "s", "mx"]], "modes": MODES}
    # larger lattices beside small ones
    for k, (a, b) in enumerate([(9, 9), (3, 11), (11, 3), (1, 15), (15, 1)]):
        for kind in ("XXZZ", "XZZX"):
            for o in KINDS:
                words = [["rz", "s", "id", "mz", "lx"], ["rx", "s", "idd", "mx", "lz"]]
                yield {"codes": [[kind, a, b], o.spec] if k % 2 else [o.spec, [kind, a, b]], "words": words,
                       "modes": ["mix"], "only": 1}
    # four and more qubits, counters beyond ten
    yield {"codes": [KINDS[i % 4].spec for i in range(12)], "words": [["s"]] * 12, "modes": MODES, "only": 1}
    small = [Code("XXZZ", 1, 1), Code("RepB", 3, 1), Code("RepP", 1, 3), Code("XZZX", 1, 3), Code("XZZX", 3, 1)]
    for w in OPS:
        # every operation on every one of twelve encoded qubits (names share prefixes)
        yield {"codes": [small[i % 5].spec for i in range(12)], "words": [[w, "s"]] * 12, "modes": MODES, "only": 2}
    for k in KINDS:
        yield {"codes": [k.spec, k.spec], "words": [["s", "mz"] * 12, ["mz", "s"] * 12], "modes": MODES, "only": 3}
    # insertion order across sub-registers
    subs = ["data", "ancilla", "x"]
    for n in (1, 2, 3, 4):
        for where in product(range(3), repeat=n):
            for how in ("one", "many"):
                yield {"insert": list(where), "how": how}
    for k in KINDS:
        yield {"codes": [k.spec, KINDS[0].spec], "words": [["rz", "s", "x", "mz"], ["rx", "s", "mx"]],
               "modes": ["aer"], "only": 1}


def own_readout(q, k, call):
    """A logical readout into a register of the caller: the k-th operation of the encoded qubit."""
    reg = ClassicalRegister(1, f"{q.name}_own{k}")
    q.circ.add_register(reg)
    call(readout_creg=reg)


def alone(c, word, name):
    q = c.qubit(name=name)
    for k, w in enumerate(word):
        if w[0] == "M":
            own_readout(q, k, q.readout_z if w == "Mz" else q.readout_x)
        else:
            hist.apply(q, w)
    qi = {b: i for i, b in enumerate(all_of(q))}
    return ([restrict(q.circ, i, qi, {b: b for b in range(q.circ.num_clbits)}) for i in q.circ.data
             if i.operation.name != "barrier"],
            [(r.name, len(r)) for r in q.circ.cregs], q)


def counters(q, ref):
    """Rounds, readouts and classical registers the encoded qubit itself reports, against the same one alone."""
    for k in ("T", "num_readout", "num_lattice_readout"):
        if q.lattice.params.get(k) != ref.lattice.params.get(k):
            return f"counts {k}={q.lattice.params.get(k)} instead of {ref.lattice.params.get(k)}"
    got, want = ([(k, r.name, len(r)) for k, r in x.lattice.cregisters.items()] for x in (q, ref))
    return None if got == want else f"knows the registers {got} instead of {want}"


def restrict(circ, ins, qi, ci):
    name, params, qs, cs, cond = instr(circ, ins)
    return (name, params, tuple(qi[q] for q in qs), tuple(ci[x] for x in cs), cond)


def run_case(spec, st):
    if "insert" in spec:
        return run_insert(spec, st)
    cs = [Code.of(s) for s in spec["codes"]]
    words = spec["words"]
    n = 0
    for m in merges([len(w) for w in words]):
        n += 1
        if spec.get("only") and n > spec["only"]:
            break
        for mode in spec["modes"]:
            st["states"] += 1
            st["traces"] += 1
            st["transitions"] += len(m)
            e = execute(cs, words, m, mode, st)
            if e:
                return f"{mode}, interleaving {m}: {e}"
    return None


def execute(cs, words, merge, mode, st):
    at = list(range(len(cs)))  # index of every encoded qubit in its register
    tcs = [None] * len(cs)
    if mode == "direct":
        circ = QuantumCircuit()
        qs = [c.qubit(circ=circ, name=f"q{i}") for i, c in enumerate(cs)]
    elif mode == "regs":
        # the user's own registers and gates, a register per parity, all on one circuit
        circ = QuantumCircuit(QuantumRegister(2, "own"), ClassicalRegister(3, "m1"))
        circ.h(0)
        circ.measure(0, 1)
        tregs = [TopologicalRegister(circ=circ, name=n) for n in ("r", "r_1")]
        for i, c in enumerate(cs):
            at[i] = tregs[i % 2].n
            tregs[i % 2].add_tqubit("data" if i % 3 else "more", c.ctype, c.params())
        both = [TopologicalCircuit(t) for t in tregs]
        tcs = [both[i % 2] for i in range(len(cs))]
        qs = [tregs[i % 2][at[i]] for i in range(len(cs))]
    else:
        treg = TopologicalRegister(ctypes=[c.ctype for c in cs], params=[c.params() for c in cs])
        tcs = [TopologicalCircuit(treg)] * len(cs)
        circ = treg.circ
        qs = [treg[i] for i in range(len(cs))]
    own = [set(all_of(q)) for q in qs]
    if mode == "regs" and any(circ.find_bit(b).index in o for b in circ.qubits[:2] for o in own):
        return "an encoded qubit took a qubit of the user"
    for i in range(len(qs)):
        for j in range(i):
            if own[i] & own[j]:
                return f"encoded qubits {i} and {j} share physical qubits"
    clb = [[] for _ in cs]
    pos = [0] * len(cs)
    log = [[] for _ in cs]
    for step, i in enumerate(merge):
        op = words[i][pos[i]]
        pos[i] += 1
        b, d = circ.num_clbits, len(circ.data)
        nq = circ.num_qubits
        if op[0] == "M":
            k = pos[i] - 1
            if mode in ("method", "direct") or (mode == "mix" and step % 3 == 2):
                own_readout(qs[i], k, qs[i].readout_z if op == "Mz" else qs[i].readout_x)
            else:
                who = qs[i] if mode == "object" or (mode in ("mix", "regs") and step % 3) else at[i]
                own_readout(qs[i], k, lambda **kw: getattr(tcs[i], TC[op])(who, **kw))
        elif mode == "index" or (mode in ("mix", "aer", "regs") and step % 3 == 0):
            getattr(tcs[i], TC[op])(at[i])
        elif mode == "object" or (mode in ("mix", "aer", "regs") and step % 3 == 1):
            getattr(tcs[i], TC[op])(qs[i])
        else:
            hist.LOGICAL[op](qs[i])
        if circ.num_qubits != nq:
            return f"{op} on {i} added qubits"
        clb[i] += list(range(b, circ.num_clbits))
        ci = {x: k for k, x in enumerate(clb[i])}
        qi = {x: k for k, x in enumerate(all_of(qs[i]))}
        for ins in circ.data[d:]:
            if ins.operation.name == "barrier":
                continue
            s = instr(circ, ins)
            if not set(s[2]) <= own[i] or not set(s[3]) <= set(clb[i]):
                return f"{op} on encoded qubit {i} touches something else: {s}"
            log[i].append(restrict(circ, ins, qi, ci))
    regs = {circ.find_bit(r[0]).index: (r.name, len(r)) for r in circ.cregs if len(r)}
    for i, c in enumerate(cs):
        want, wregs, wq = alone(c, words[i], qs[i].name)
        if log[i] != want:
            return f"encoded qubit {i} was built differently than alone"
        got = [regs[b] for b in clb[i] if b in regs]
        if got != [r for r in wregs if r[1]]:
            return f"encoded qubit {i} has registers {got} instead of {wregs}"
        e = counters(qs[i], wq)
        if e:
            return f"encoded qubit {i}: {e}"
    if mode == "aer":
        res = run(compile_circuit(circ), circ.num_qubits, circ.num_clbits)
        for i, c in enumerate(cs):
            q = alone(c, words[i], qs[i].name)[2]
            ra = run(compile_circuit(q.circ), q.circ.num_qubits, q.circ.num_clbits)
            if relations([res.cl[b] for b in clb[i]]) != relations(ra.cl):
                return "distribution differs from the one alone"
        return aer.conform(circ, st, 16)
    return None


def run_insert(spec, st):
    subs = ["data", "ancilla", "x"]
    types = ["Repetition", "XXZZ", "XZZX", "Repetition"]
    pars = [{"d": 3}, {"d": (3, 5)}, {"d": 3}, {"d": 5, "phase-flip-protected": True}]
    sizes = [3, 15, 9, 5]
    where = [subs[i] for i in spec["insert"]]
    treg = TopologicalRegister()
    k = 0
    while k < len(where):
        if spec["how"] == "one":
            treg.add_tqubit(where[k], types[k], dict(pars[k]))
            k += 1
        else:
            j = k
            while j < len(where) and where[j] == where[k]:
                j += 1
            treg.add_tqubits(where[k], types[k:j], [dict(p) for p in pars[k:j]])
            k = j
    st["states"] += 1
    st["transitions"] += len(where)
    st["traces"] += 1
    tc = TopologicalCircuit(treg)
    seen = set()
    for i in range(len(where)):
        q = treg[i]
        if type(q) is not QUBITS[types[i]] or len(q.lattice.qregisters["data"]) != sizes[i]:
            return f"index {i} is not the {i}-th inserted encoded qubit"
        if id(q) in seen:
            return f"index {i} returns an encoded qubit twice"
        seen.add(id(q))
        if treg[where[i]][i] is not q:
            return f"sub-register {where[i]} does not hold encoded qubit {i}"
        d = len(tc.circ.data)
        tc.x(i)
        touched = {tc.circ.find_bit(b).index for ins in tc.circ.data[d:] if ins.operation.name != "barrier"
                   for b in ins.qubits}
        if not touched or not touched <= set(all_of(q)):
            return f"x({i}) touches other qubits"
    for s in set(where):
        if len(treg[s]) != where.count(s):
            return f"sub-register {s} has {len(treg[s])} entries"
    try:
        treg[len(where)]
    except Exception:
        return None
    return "an index beyond the last encoded qubit was accepted"
