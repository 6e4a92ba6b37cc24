"""
C05: a single fault produces exactly its neighbouring syndrome hits at its time.

Real circuits with symbolic faults in every slot; every single fault is evaluated in every (bounded)
measurement branch, rendered as a result string and parsed by the library.
"""
from .. import hist
from ..codes import Code, all_codes, data_of
from ..interp import compile_circuit, render, run, string_layout
from .c04 import assignments

LEVEL = "model_checking"
RULE = ("every code x odd lattice x number of rounds x preparation x readout style in bounds; every Pauli X/Y/Z on "
        "every data qubit in every slot and every syndrome-bit flip of every intermediate round, each in every "
        "bounded measurement branch; states = (fault, branch) pairs parsed, transitions = executed steps")
ASSUMPTIONS = ["one fault per history, as stated"]


def cases(tier):
    th = tier == "thorough"
    for kind in ("XXZZ", "XZZX"):
        for a, b in ((9, 9), (11, 11), (13, 13), (15, 15), (3, 11), (11, 3), (3, 17), (17, 3), (1, 21), (21, 1), (1, 33), (33, 1)):
            for prep, tail in (("rz", "lz"), ("rx", "mx")):
                yield {"code": [kind, a, b], "T": 2, "prep": prep, "tail": tail, "gates": []}
    for code in (["RepB", 21, 1], ["RepP", 1, 21]):
        for prep, tail in (("rz", "lz"), ("rx", "mx"), ("rx", "lx")):
            yield {"code": code, "T": 2, "prep": prep, "tail": tail, "gates": []}
    for c in all_codes(9 if th else 7, 81 if th else 49, 15 if th else 11):
        Ts = (1, 2, 3, 4) if c.n <= 9 else (1, 3) if c.n <= 25 else (2,)
        if c.n <= 5:
            Ts += (6, 12, 20, 33)
            if c.n <= 3:
                Ts += (70, 131)
        elif c.n <= 9:
            Ts += (12,)
        for T in Ts:
            for prep in ("rz", "rx"):
                for tail in ("mz", "mx", "lz", "lx"):
                    for gates in ([], ["z", "x"]):
                        if gates and (c.n > 15 or T > 12):
                            continue
                        if T > 33 and (c.ctype != "Repetition" or tail[1] == prep[1]):
                            continue
                        yield {"code": c.spec, "T": T, "prep": prep, "tail": tail, "gates": gates}


def run_case(spec, st):
    c = Code.of(spec["code"])
    T = spec["T"]
    q = c.qubit()
    hist.apply(q, spec["prep"])
    data = data_of(q)
    faults, clf = {}, {}
    rounds = []
    for r in range(T + 1):
        if r:
            faults[len(q.circ.data)] = [((r - 1, p, i), p, data[i]) for i in range(c.n) for p in "xz"]
        bits = hist.apply(q, "s")
        rounds.append(bits)
        if 0 < r < T:
            for k, b in enumerate(bits):
                clf[b] = ("m", r, k)
        for g in spec["gates"]:
            hist.apply(q, g)
    hist.apply(q, spec["tail"])
    res = run(compile_circuit(q.circ), q.circ.num_qubits, q.circ.num_clbits, faults=faults, clfaults=clf)
    st["transitions"] += res.steps
    st["traces"] += 1
    layout = string_layout(q.circ)
    basis = spec["tail"][1].upper()
    fv = res.faultvar
    rand = res.rand_vars()

    def branches():
        # assignments of the random outcomes: all when few, else none / each / all
        if len(rand) <= 4:
            for m in range(1 << len(rand)):
                yield sum(1 << rand[k] for k in range(len(rand)) if m >> k & 1)
        else:
            yield 0
            yield sum(1 << v for v in rand)
            yield sum(1 << v for v in rand[::2])
            yield sum(1 << v for v in rand[1::2])

    br = list(branches())

    def hits(a):
        st["states"] += 1
        _, h = q.parse_readout(render(layout, res.cl, a), basis)
        out = sorted(("Z",) + tuple(x) for x in h["Z"]) + sorted(("X",) + tuple(x) for x in h["X"])
        return out

    for b in br:
        if hits(b):
            return f"hits {hits(b)} without any fault"
        for t in range(T):
            for i in range(c.n):
                for p in "xyz":
                    a = b
                    if p in "xy":
                        a ^= fv[t, "x", i]
                    if p in "yz":
                        a ^= fv[t, "z", i]
                    ex, ez = c.effective(p, i)
                    want = []
                    if ex:
                        want += sorted(("Z", t) + s for s in c.adjacent("Z", i))
                    if ez:
                        want += sorted(("X", t) + s for s in c.adjacent("X", i))
                    got = hits(a)
                    if got != want:
                        return f"{p} on data qubit {i} after round {t}: hits {got}, expected {want}"
    seen = {}
    for r in range(1, T):
        for k in range(len(rounds[r])):
            for b in br:
                got = hits(b ^ fv["m", r, k])
                if (len(got) != 2 or got[0][0] != got[1][0] or got[0][2:] != got[1][2:]
                        or {got[0][1], got[1][1]} != {r - 1, r}):
                    return f"flip of bit {k} of round {r}: hits {got}"
                site = (got[0][0],) + got[0][2:]
                if site[1:] not in c.checks(site[0]):
                    return f"flip of bit {k} of round {r} reported outside the lattice: {site}"
                if seen.setdefault((r, site), k) != k:
                    return f"bits {k} and {seen[r, site]} of round {r} share the location {site}"
    return None
