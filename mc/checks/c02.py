"""
C02: no harmful error below the code distance goes unnoticed.

One symbolic execution of the real circuits gives the exact response (syndrome changes, flips of both logical
readouts) of an independent X and Z fault on every data qubit.  All Pauli patterns below the bound are then
covered by exhaustive meet-in-the-middle: a harmful invisible pattern of weight <= 2k exists iff two patterns
of weight <= k have the same syndrome change and different logical flips.

On larger lattices, where that table would not fit, every kind of error is a graph: its single errors change one or
two checks, so an invisible harmful pattern is a closed walk with an odd number of flips, and an exhaustive
breadth-first search over (check, parity) states finds the lightest one.  Kinds that change disjoint checks are
invisible separately, so this bounds every Pauli pattern.
"""
from collections import deque
from itertools import combinations, product

from .. import hist
from ..codes import Code, all_codes, data_of
from ..interp import compile_circuit, run

LEVEL = "model_checking"
RULE = ("every code x odd lattice in bounds x every Pauli pattern on the data qubits between two rounds below the "
        "distance (all patterns of half the weight are enumerated, pairs are decided by table look-up); states = "
        "half-weight patterns and (check, parity) pairs reached on large lattices, transitions = symbolic circuit steps executed")
ASSUMPTIONS = ["faults act between two rounds; rounds themselves are fault-free"]


def cases(tier):
    thorough = tier == "thorough"
    for c in all_codes(11 if thorough else 9, 99 if thorough else 81, 21 if thorough else 15):
        for rounds in ((1, 2, 3) if c.n <= 25 else (1,)):
            yield {"code": c.spec, "rounds": rounds, "big": thorough}
    for fam in ("XXZZ", "XZZX"):
        for dh, dw in ((11, 11), (13, 13), (15, 15), (3, 21), (21, 3), (7, 17), (17, 5), (1, 33), (33, 1)) + (
                ((19, 19), (5, 31), (31, 3)) if thorough else ()):
            yield {"code": [fam, dh, dw], "rounds": 1, "walk": True}
        for dh, dw in ((3, 3), (3, 5), (5, 3), (5, 5)):
            for rounds in (5, 8, 12, 20) + ((33, 70) if thorough else ()):
                yield {"code": [fam, dh, dw], "rounds": rounds, "walk": True}
    for fam in ("RepB", "RepP"):
        for d, rounds in ((33, 1), (71, 1), (131, 1), (3, 12), (3, 33), (3, 70), (7, 20)):
            yield {"code": [fam, d, 1] if fam == "RepB" else [fam, 1, d], "rounds": rounds, "walk": True}


def responses(c, basis, rounds, st):
    """{(pauli, i): (syndrome change mask, logical flip)} measured by executing the real circuit."""
    q = c.qubit()
    hist.apply(q, "rz" if basis == "Z" else "rx")
    prev = [hist.apply(q, "s") for _ in range(rounds)][-1]
    data = data_of(q)
    at = len(q.circ.data)
    post = hist.apply(q, "s")
    ro = hist.apply(q, "mz" if basis == "Z" else "mx")
    faults = {at: [(p + str(i), p, data[i]) for i in range(c.n) for p in "xz"]}
    res = run(compile_circuit(q.circ), q.circ.num_qubits, q.circ.num_clbits, faults=faults)
    st["transitions"] += res.steps
    st["traces"] += 1
    out = {}
    vars_ = {k: v for k, v in res.faultvar.items()}
    diff = [res.cl[a] ^ res.cl[b] for a, b in zip(prev, post)]
    log = res.cl[ro[0]]
    allmask = sum(vars_.values())
    for f in diff + [log]:
        if f & ~allmask:
            return None, "readout or syndrome change depends on something other than the faults"
    for i in range(c.n):
        for p in "xz":
            v = vars_[p + str(i)]
            out[p, i] = (sum(1 << k for k, f in enumerate(diff) if f & v), 1 if log & v else 0)
    return out, None


def lightest(kind, vec, bit, st):
    """(least number of errors of one kind that change no check and flip the readout, or None if that many do not
    exist; whether this is exact) by exhaustive search over (check, parity) states."""
    adj, best = {}, None
    for k in kind:
        s, lg = vec[k][0], vec[k][1] >> bit & 1
        ends = [x for x in range(s.bit_length()) if s >> x & 1]
        if not ends:
            if lg:
                return 1, True
            continue
        if len(ends) > 2:
            return best, False
        a, b = ends if len(ends) == 2 else (ends[0], -1)
        adj.setdefault(a, []).append((b, lg))
        adj.setdefault(b, []).append((a, lg))
    for start in adj:
        dist, todo = {(start, 0): 0}, deque([(start, 0)])
        while todo:
            v, par = todo.popleft()
            st["states"] += 1
            if v == start and par:
                break
            for w, lg in adj[v]:
                if (w, par ^ lg) not in dist:
                    dist[w, par ^ lg] = dist[v, par] + 1
                    todo.append((w, par ^ lg))
        if (start, 1) in dist and (best is None or dist[start, 1] < best):
            best = dist[start, 1]
    return best, True


def run_case(spec, st):
    c = Code.of(spec["code"])
    rz, e = responses(c, "Z", spec["rounds"], st)
    if e:
        return e
    rx, e = responses(c, "X", spec["rounds"], st)
    if e:
        return e
    vec = {}
    for k in rz:
        if rz[k][0] != rx[k][0]:
            return f"the syndrome of error {k} depends on the prepared basis"
        vec[k] = (rz[k][0], rz[k][1] | rx[k][1] << 1)
    for i in range(c.n):
        vec["y", i] = (vec["x", i][0] ^ vec["z", i][0], vec["x", i][1] ^ vec["z", i][1])

    def search(letters, limit, what):
        """letters[i]: options on qubit i; every pattern of weight <= limit that is invisible is harmless."""
        half = (limit + 1) // 2
        seen = {0: (0, ())}
        for w in range(1, half + 1):
            for sites in combinations(range(c.n), w):
                for ps in product(*(letters[i] for i in sites)):
                    s = lg = 0
                    for p, i in zip(ps, sites):
                        a, b = vec[p, i]
                        s ^= a
                        lg ^= b
                    st["states"] += 1
                    old = seen.get(s)
                    if old is None:
                        seen[s] = (lg, tuple(zip(ps, sites)))
                    elif old[0] != lg:
                        # union of both patterns is invisible and harmful; its weight decides
                        comb = {}
                        for p, i in old[1] + tuple(zip(ps, sites)):
                            comb.setdefault(i, []).append(p)
                        wt = sum(1 for v in comb.values() if len(set(v)) > 1 or len(v) == 1)
                        if wt <= limit:
                            return (f"{what}: invisible harmful error of weight {wt}: "
                                    f"{old[1]} * {tuple(zip(ps, sites))}")
        return None

    xkind = [[c.physical(1, 0, i)] for i in range(c.n)]
    zkind = [[c.physical(0, 1, i)] for i in range(c.n)]
    # each kind flips only its own readout
    for i in range(c.n):
        if vec[xkind[i][0], i][1] & 2 or vec[zkind[i][0], i][1] & 1:
            return f"an error on data qubit {i} flips the readout of the wrong basis"
    if spec.get("walk"):
        # a pair of errors of both kinds on one qubit is invisible only if each is: the checks must be disjoint
        sees = [0, 0]
        for j, kind in enumerate((xkind, zkind)):
            for i, (k,) in enumerate(kind):
                sees[j] |= vec[k, i][0]
        exact = not sees[0] & sees[1]
        for kind, bit, limit, what in ((xkind, 0, c.dh, "Z-readout kind"), (zkind, 1, c.dw, "X-readout kind")):
            w, ok = lightest([(k, i) for i, (k,) in enumerate(kind)], vec, bit, st)
            if w is not None and w < limit:
                return f"{what}: invisible harmful error of weight {w} < {limit}"
            exact &= ok
        return None if exact else search([["x", "y", "z"]] * c.n, min(2, c.dh - 1, c.dw - 1), "any Pauli")
    cap = 9 if spec["big"] else 8
    for letters, limit, what in ((xkind, c.dh - 1, "Z-readout kind"), (zkind, c.dw - 1, "X-readout kind")):
        if c.n > 50:
            limit = min(limit, cap - 2 if c.n > 64 else cap)
        m = search(letters, limit, what)
        if m:
            return m
    d = min(c.dh, c.dw) - 1
    if c.n > 64:
        d = min(d, 4)
    return search([["x", "y", "z"]] * c.n, d, "any Pauli")
