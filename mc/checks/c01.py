"""
C01: a round is a complete, repeatable, non-destructive measurement.

The data qubits start maximally entangled with reference qubits (= every input state at once) and the real
circuit of every operation history is executed on the affine tableau (= every measurement branch at once).
"""
from .. import hist
from ..codes import Code, all_codes, all_of, data_of, qidx
from ..interp import compile_circuit, run
from ..lin import rank
from ..tableau import Tableau
from .. import aer

LEVEL = "model_checking"
RULE = ("every code x odd lattice in bounds, data maximally entangled with reference qubits, every word over "
        "{x, z, id, id_data, readout_z, readout_x} up to the bound placed between two rounds (plus rounds "
        "between every two letters), plus every order of the two single-family entanglers")
ASSUMPTIONS = ["the stabilizer executor implements Clifford gates, measurement and reset correctly "
               "(cross-checked against qiskit-aer in every run)"]

OPS = ["x", "z", "id", "idd", "mz", "mx"]


def cases(tier):
    thorough = tier == "thorough"
    for c in all_codes(9 if thorough else 7, 81 if thorough else 49, 15 if thorough else 11):
        small, mid = c.n <= 9, c.n <= 25
        L = (4 if small else 3 if mid else 2) if thorough else (3 if small else 2 if mid else 1)
        for w in hist.sequences(OPS, L):
            yield {"code": c.spec, "ops": list(w), "dense": False}
            if len(w) > 1:
                yield {"code": c.spec, "ops": list(w), "dense": True}
        # many rounds
        yield {"code": c.spec, "ops": ["s"] * (12 if small else 5), "dense": False}
        for w in hist.sequences(["ex", "ez", "s"], 3 if mid else 2, 1):
            if "ex" in w or "ez" in w:
                yield {"code": c.spec, "family": list(w)}
    for kind in ("XXZZ", "XZZX"):
        for a, b in ((9, 9), (11, 11), (13, 13), (15, 15), (3, 11), (11, 3), (3, 15), (15, 3), (1, 25), (25, 1), (9, 13),
                     (13, 9), (3, 21), (21, 3)):
            for w in ([], ["x", "z", "idd", "mz", "mx"]):
                yield {"code": [kind, a, b], "ops": w, "dense": False}
            for w in (["ex"], ["ez"], ["ez", "ex", "s"]):
                yield {"code": [kind, a, b], "family": w}
    for d in (21, 33):
        for code in (["RepB", d, 1], ["RepP", 1, d]):
            for w in ([], ["x", "z", "id", "mz", "mx", "s"]):
                yield {"code": code, "ops": w, "dense": False}
    for code in (["RepB", 3, 1], ["RepP", 1, 3], ["XXZZ", 3, 3], ["XZZX", 3, 3], ["XZZX", 1, 3], ["XXZZ", 3, 1]):
        for w in (["s"] * 30, ["s", "x", "s", "mz"] * 8, ["id", "s"] * 16):
            yield {"code": code, "ops": w, "dense": False}
    for c in all_codes(5, 15, 5):
        yield {"code": c.spec, "aer": True}


def logical_masks(c, data, refs, typ):
    """(px, pz) of L(data) L(refs) for logical X ("X", left column) or Z ("Z", top row)."""
    sites = [i for i in range(c.n) if (c.pos(i)[1] == 0 if typ == "X" else c.pos(i)[0] == 0)]
    return pauli_masks(c, sites, typ, data, refs)


def pauli_masks(c, sites, typ, data, refs=None):
    px = pz = 0
    for i in sites:
        p = c.physical(typ == "X", typ == "Z", i)
        m = 1 << data[i]
        if refs is not None:
            m |= 1 << refs[i]
        if p == "x":
            px |= m
        else:
            pz |= m
    return px, pz


def execute(c, q, st):
    circ = q.circ
    nq, ncl = circ.num_qubits, circ.num_clbits
    data = data_of(q)
    refs = [nq + i for i in range(c.n)]
    tab = Tableau(nq + c.n)
    for i in range(c.n):
        tab.h(refs[i])
        tab.cx(refs[i], data[i])
    res = run(compile_circuit(circ), nq, ncl, tab=tab)
    st["states"] += 1
    st["traces"] += 1
    st["transitions"] += res.steps
    return res, data, refs


def check_data(c, res, data, refs, sign, measured):
    """Correlation of the data with the reference: nothing but check values was learnt."""
    for typ in ("Z", "X"):
        for site in c.checks(typ):
            sup = [a * c.dw + b for a, b in c.support(site)]
            e = res.tab.expectation(*pauli_masks(c, sup, typ, data, refs))
            if e != 0:
                return f"check {typ}{site} of the data was disturbed ({e})"
        want = sign[typ]
        e = res.tab.expectation(*logical_masks(c, data, refs, typ))
        if want != e:
            return f"logical {typ} correlation is {e}, expected {want}"
    return None


def run_case(spec, st):
    c = Code.of(spec["code"])
    if spec.get("aer"):
        q = c.qubit()
        q.reset_x() if c.kind != "RepP" else q.reset_z()
        for op in ("s", "x", "mz", "s", "z", "mx", "s"):
            hist.apply(q, op)
        return aer.conform(q.circ, st)
    if "family" in spec:
        return run_family(c, spec["family"], st)
    q = c.qubit()
    rounds = [hist.apply(q, "s")]
    sign = {"X": 0, "Z": 0}
    for op in spec["ops"]:
        bits = hist.apply(q, op)
        if op == "s":
            rounds.append(bits)
        if op == "x" and sign["Z"] is not None:
            sign["Z"] ^= 1
        if op == "z" and sign["X"] is not None:
            sign["X"] ^= 1
        if op == "mz":
            sign["X"] = None
        if op == "mx":
            sign["Z"] = None
        if spec["dense"]:
            rounds.append(hist.apply(q, "s"))
    rounds.append(hist.apply(q, "s"))
    res, data, refs = execute(c, q, st)
    forms = [[res.cl[b] for b in r] for r in rounds]
    if len(forms[0]) != c.n - 1:
        return f"{len(forms[0])} syndrome bits for {c.n} data qubits"
    if rank([f & ~1 for f in forms[0]]) != c.n - 1:
        return "syndrome bits of the first round are not independent"
    for k, f in enumerate(forms[1:]):
        if f != forms[0]:
            return f"round {k + 1} reports different syndromes than round 0 without any error"
    # the measured bits are the values of the checks
    want = set()
    for typ in ("Z", "X"):
        for site in c.checks(typ):
            sup = [a * c.dw + b for a, b in c.support(site)]
            want.add(res.tab.expectation(*pauli_masks(c, sup, typ, data)))
    if want != set(forms[0]):
        return "syndrome bits are not the values of the code's checks"
    for op in spec["ops"]:
        if op in ("mz", "mx"):
            break
    # readouts of both bases scramble the correlation signs; only constants are predicted
    return check_data(c, res, data, refs, dict(sign), True) if not (
        "mz" in spec["ops"] or "mx" in spec["ops"]) else None


def run_family(c, word, st):
    q = c.qubit()
    lat = q.lattice
    if not hasattr(lat, "entangle_x"):
        return None
    from qiskit import ClassicalRegister

    meas = []
    idle = []
    for k, w in enumerate(word):
        if w == "s":
            meas.append(("s", hist.apply(q, "s")))
            continue
        (lat.entangle_x if w == "ex" else lat.entangle_z)()
        for name in ("mx", "mz"):
            if name in lat.qregisters:
                reg = lat.qregisters[name]
                cr = ClassicalRegister(len(reg), f"probe{k}{name}")
                q.circ.add_register(cr)
                q.circ.measure(reg, cr)
                q.circ.reset(reg)
                bits = [q.circ.find_bit(b).index for b in cr]
                if name == "m" + w[1]:
                    meas.append((w, bits))
                else:
                    idle.append(bits)
    res, data, refs = execute(c, q, st)
    for bits in idle:
        if any(res.cl[b] for b in bits):
            return "a check of the other family was entangled"
    vals = {}
    for typ in ("Z", "X"):
        vals[typ] = []
        for site in c.checks(typ):
            sup = [a * c.dw + b for a, b in c.support(site)]
            vals[typ].append(res.tab.expectation(*pauli_masks(c, sup, typ, data)))
    for w, bits in meas:
        f = [res.cl[b] for b in bits]
        if rank([v & ~1 for v in f]) != len(f):
            return f"{w}: dependent bits"
        want = vals["Z"] + vals["X"] if w == "s" else vals[w[1].upper()]
        if len(f) != len(want) or set(f) != set(want):
            return f"{w}: measured something other than its family of checks"
    for typ, w in (("X", "ex"), ("Z", "ez")):
        if w not in word and "s" not in word and any(v is not None for v in vals[typ]):
            return f"{typ} checks were measured although only the other family was asked for"
    return check_data(c, res, data, refs, {"X": 0, "Z": 0}, False)
