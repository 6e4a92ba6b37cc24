"""
C04: a whole-lattice readout equals one more perfect round plus a logical readout.

Both continuations of the same history (lattice readout / extra round + readout) are executed with symbolic
faults on all data qubits in every slot; the library's parser is then run on the result strings of every
bounded assignment of faults and of the random measurement outcomes, and both parses are compared.
"""
from itertools import combinations

from .. import hist
from ..codes import Code, all_codes, data_of
from ..interp import compile_circuit, render, run, string_layout

LEVEL = "model_checking"
RULE = ("every code x odd lattice in bounds x preparation basis x readout basis x number of rounds x gates; for each, "
        "every assignment of (fault, measurement-branch) variables when there are few, else every assignment with at "
        "most w of them set; states = assignments compared, transitions = executed circuit steps")
ASSUMPTIONS = ["the last round and the readout themselves are fault-free, as stated"]


def cases(tier):
    th = tier == "thorough"
    for c in all_codes(9 if th else 7, 63 if th else 35, 13 if th else 9):
        Ts = (1, 2, 3, 4) if c.n <= 5 else (1, 2, 3) if c.n <= 15 else (1, 2)
        for prep in ("rz", "rx"):
            for basis in "ZX":
                for T in Ts + ((12, 20) if c.n <= 5 else (8,) if c.n <= 9 else ()):
                    for gates in ([], ["x"], ["z"], ["x", "z"]):
                        if gates and (T > 2 or c.n > 15):
                            continue
                        yield {"code": c.spec, "prep": prep, "basis": basis, "rounds": T, "gates": gates,
                               "w": (3 if th and c.n <= 15 else 2) if T <= 3 and c.n <= 25 else 1,
                               "full": 14 if th else 11}
    for kind, dh, dw in [(k, a, b) for k in ("XXZZ", "XZZX") for a, b in
                         ((9, 9), (11, 11), (13, 9), (3, 13), (13, 3), (3, 23), (23, 3), (1, 21), (21, 1))] + \
            [("RepB", 33, 1), ("RepP", 1, 33), ("RepB", 71, 1), ("RepP", 1, 71)]:
        c = Code(kind, dh, dw)
        for prep in ("rz", "rx"):
            for basis in "ZX":
                for gates in ([], ["x"], ["z"]):
                    yield {"code": c.spec, "prep": prep, "basis": basis, "rounds": 1 + bool(gates), "gates": gates,
                           "w": 1, "full": 8}


def build(c, spec, tail):
    q = c.qubit()
    hist.apply(q, spec["prep"])
    data = data_of(q)
    faults = {}
    for t in range(spec["rounds"]):
        if t:  # slot between two rounds
            faults[len(q.circ.data)] = slot(c, data, t)
        hist.apply(q, "s")
        if t == 0:
            for g in spec["gates"]:
                hist.apply(q, g)
    faults[len(q.circ.data)] = slot(c, data, spec["rounds"])
    at = len(q.circ.data)
    for o in tail:
        hist.apply(q, o)
    steps = compile_circuit(q.circ)
    nq, ncl = q.circ.num_qubits, q.circ.num_clbits
    res = run(steps, nq, ncl, faults=faults)
    # variables of the common prefix: those created before the tail
    pre = run([s for s in steps if s.src < at], nq, ncl, faults=faults)
    return q, res, pre.tab.nvars


def slot(c, data, t):
    return [((t, p, i), p, data[i]) for i in range(c.n) for p in "xz"]


def assignments(nvars, w, full):
    if nvars <= full:
        yield from range(0, 1 << (nvars + 1), 2)
        return
    vs = [1 << (v + 1) for v in range(nvars)]
    yield 0
    for k in range(1, w + 1):
        for cmb in combinations(vs, k):
            yield sum(cmb)
    yield sum(vs)
    yield sum(vs[::2])
    yield sum(vs[1::2])


def run_case(spec, st):
    c = Code.of(spec["code"])
    b = spec["basis"]
    low = b.lower()
    qa, ra, na = build(c, spec, ["l" + low])
    qb, rb, nb = build(c, spec, ["s", "m" + low])
    assert na == nb
    st["transitions"] += ra.steps + rb.steps
    st["traces"] += 2
    la, lb = string_layout(qa.circ), string_layout(qb.circ)
    # variables created by the tails (random outcomes of the final measurements)
    deterministic = b == spec["prep"][1].upper()
    readout_b = rb.cl[lb[0][0]]
    if deterministic and readout_b >> (nb + 1):
        return "logical readout is random although the basis was prepared"
    T = spec["rounds"]
    other = "X" if b == "Z" else "Z"
    prefix = (1 << (na + 1)) - 1
    seen_logical = {}
    for a in assignments(ra.tab.nvars, spec["w"], spec["full"]):
        st["states"] += 1
        sa = render(la, ra.cl, a)
        va, ha = qa.parse_readout(sa, b)
        # the extra-round continuation with the same prefix variables; its own variables only decide an
        # undetermined logical value (and nothing else): try them all
        outs = []
        free = rb.tab.nvars - nb
        for e in (range(1 << min(free, 2)) if free else (0,)):
            ab = (a & prefix) | (e << (nb + 1))
            outs.append(qb.parse_readout(render(lb, rb.cl, ab), b))
        want_hits = sorted(outs[0][1][b])
        if sorted(ha[b]) != want_hits:
            return f"{sa}: {b} hits {sorted(ha[b])} instead of {want_hits}"
        want_other = sorted(h for h in outs[0][1][other] if h[0] < T - 1)
        if sorted(ha[other]) != want_other:
            return f"{sa}: {other} hits {sorted(ha[other])} instead of {want_other}"
        if deterministic:
            if va != outs[0][0]:
                return f"{sa}: logical value {va} instead of {outs[0][0]}"
        else:
            if {o[0] for o in outs} != {0, 1}:
                return "logical readout in the other basis is not random"
            seen_logical.setdefault(a & prefix, set()).add(va)
    if not deterministic:
        # random logical value: the lattice readout must show both values with equal weight
        f = 0
        from .c03 import lattice_logical

        const, sel = lattice_logical(c, qa, b)
        ro = la[0][::-1]
        for i in sel:
            f ^= ra.cl[ro[i]]
        if not f >> (na + 1):
            return "lattice readout fixes a logical value that should be random"
    return None
