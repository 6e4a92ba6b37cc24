"""C25: faulty operations inside the rounds of the real circuits: distance and correction of single ones."""
from mc import hist
from mc.codes import Code
from mc.interp import compile_circuit, render, run, string_layout

LEVEL = "model_checking"
RULE = ("every code x lattice x basis x number of faulty rounds in bounds; every single faulty operation (any Pauli on "
        "the qubits of any gate or reset or measurement after it, any flipped syndrome record) of the real rounds is "
        "executed, parsed and decoded, and every combination of fewer than d of them (or up to the bound) is decided "
        "by meeting in the middle; states = fault combinations enumerated, transitions = executed circuit steps, "
        "traces = result strings given to the real parser and decoder")
ASSUMPTIONS = [
    "the round before the faulty ones and the final readout are free of faults",
    "hits of combined faults are the symmetric difference of their hits (C06)",
]


def cases(tier):
    th = tier == "thorough"
    out = []
    for kind in ("XXZZ", "XZZX"):
        out += [(kind, 3, 3, 1, 2), (kind, 3, 3, 2, 2), (kind, 3, 3, 3, 2), (kind, 3, 5, 1, 4), (kind, 5, 3, 1, 4),
                (kind, 5, 3, 2, 4), (kind, 3, 5, 2, 4), (kind, 5, 5, 1, 4), (kind, 1, 3, 2, 2), (kind, 3, 1, 2, 2),
                (kind, 1, 5, 2, 4), (kind, 5, 1, 2, 4), (kind, 3, 7, 1, 4), (kind, 7, 3, 1, 4), (kind, 7, 7, 1, 3),
                (kind, 5, 7, 1, 3), (kind, 7, 5, 1, 3), (kind, 9, 3, 1, 3), (kind, 3, 9, 1, 3)]
        if th:
            out += [(kind, 5, 5, 2, 4), (kind, 5, 5, 3, 4), (kind, 7, 7, 1, 4), (kind, 9, 9, 1, 3), (kind, 3, 3, 6, 2),
                    (kind, 7, 3, 2, 6), (kind, 3, 7, 2, 6)]
    for d in (3, 5, 7) + ((9, 11) if th else ()):
        for T in (1, 2, 3):
            out += [("RepB", d, 1, T, min(d - 1, 6)), ("RepP", 1, d, T, min(d - 1, 6))]
    out += [("RepB", 3, 1, 12, 2), ("RepP", 1, 3, 12, 2), ("XXZZ", 1, 3, 12, 2), ("XZZX", 3, 1, 12, 2),
            ("XXZZ", 3, 3, 8, 2), ("XZZX", 3, 3, 8, 2), ("RepB", 5, 1, 8, 4), ("RepP", 1, 5, 8, 4)]
    for kind, dh, dw, T, w in out:
        c = Code(kind, dh, dw)
        for basis in "ZX":
            if c.has(basis):
                for style in "lm":
                    if style == "l" or c.n <= 25:
                        yield {"code": c.spec, "basis": basis, "T": T, "style": style,
                               "w": min(w, c.distance(basis) - 1) if style == "l" else 1}


def experiment(c, basis, T, style, value, st):
    """A clean round, T faulty ones, a clean end.  Yields (what, mask of fault variables) for single faults."""
    q = c.qubit()
    low = basis.lower()
    hist.apply(q, "r" + low)
    if value:
        hist.apply(q, "x" if basis == "Z" else "z")
    hist.apply(q, "s")
    circ = q.circ
    start = len(circ.data)
    for _ in range(T):
        hist.apply(q, "s")
    end = len(circ.data)
    if style == "m":
        # two: a faulty reset of an auxiliary qubit is a flipped record of the next round
        hist.apply(q, "s")
        hist.apply(q, "s")
    hist.apply(q, style + low)
    faults, clf, ops = {}, {}, []
    for i in range(start, end):
        ins = circ.data[i]
        if ins.operation.name == "barrier":
            continue
        qs = [circ.find_bit(b).index for b in ins.qubits]
        keys = [(i, p, x) for x in qs for p in "xz"]
        faults.setdefault(i + 1, []).extend((k, k[1], k[2]) for k in keys)
        for b in ins.clbits:
            b = circ.find_bit(b).index
            clf[b] = ("record", i, b)
            keys.append(clf[b])
        ops.append((i, ins.operation.name, keys))
    res = run(compile_circuit(circ), circ.num_qubits, circ.num_clbits, faults=faults, clfaults=clf)
    st["transitions"] += res.steps
    return q, res, ops


def run_case(spec, st):
    c = Code.of(spec["code"])
    basis, T, style = spec["basis"], spec["T"], spec["style"]
    dec = c.decoder(T + (1 if style == "l" else 2))
    correct = c.distance(basis) >= 5 or c.ctype == "Repetition" or 1 in (c.dh, c.dw)
    kinds = None
    for value in (0, 1):
        q, res, ops = experiment(c, basis, T, style, value, st)
        layout = string_layout(q.circ)
        rand = sum(1 << v for v in res.rand_vars())
        index, seen, here = {}, {}, {}

        def look(mask):
            """(hits, logical flip) of an assignment, from the real parser; also decodes it."""
            s = render(layout, res.cl, mask)
            if s not in seen:
                st["traces"] += 1
                v, h = dec.parse_readout(s, basis)
                bits = 0
                for typ in h:
                    for hit in h[typ]:
                        bits ^= 1 << index.setdefault((typ,) + tuple(map(float, hit)), len(index))
                ans = [dec.correct_readout(s, basis)]
                if c.n <= 25:
                    ans.append(dec.correct_readout(s, basis, err_prob=0.01))
                seen[s] = (bits, v ^ value, ans)
            return seen[s]

        for branch in {0, rand}:
            base = look(branch)
            if base[0] or base[1] or set(base[2]) != {value}:
                return f"fault-free run gives hits/flip/decoding {base}"
            for i, name, keys in ops:
                vs = [res.faultvar[k] for k in keys]
                for m in range(1, 1 << len(vs)):
                    mask = branch
                    for k, v in enumerate(vs):
                        if m >> k & 1:
                            mask ^= v
                    st["states"] += 1
                    bits, flip, ans = look(mask)
                    what = [keys[k] for k in range(len(vs)) if m >> k & 1]
                    if correct and set(ans) != {value}:
                        return (f"{name} (instruction {i}) with fault {what} in branch {int(branch != 0)}: encoded "
                                f"{value}, decoded {ans} from {render(layout, res.cl, mask)}")
                    if not branch and (bits or flip):
                        here.setdefault((bits, flip), (name, what))
                    elif branch and (bits or flip) and (bits, flip) not in here:
                        return f"{name} with fault {what} is seen differently in another measurement branch"
        if value and set(here) != kinds:
            return "the faults are seen differently for the other logical value"
        kinds = set(here)
    return distance(here, spec["w"], st)


def distance(one, limit, st):
    """No combination of at most `limit` faults is invisible and flips the readout."""
    if (0, 1) in one and limit >= 1:
        return f"one faulty operation is invisible and flips the readout: {one[0, 1]}"
    seen = [{0: ()}, {}]  # flip -> {bits: combination}
    fresh = [((0, 0), ())]
    for w in range(1, (limit + 1) // 2 + 1):
        nxt = []
        for (b, f), how in fresh:
            for (b2, f2), what in one.items():
                nb, nf = b ^ b2, f ^ f2
                st["states"] += 1
                if nb not in seen[nf]:
                    seen[nf][nb] = how + (what,)
                    nxt.append(((nb, nf), how + (what,)))
        fresh = nxt
    for b, how in seen[0].items():
        other = seen[1].get(b)
        if other is not None and len(how) + len(other) <= limit:
            return (f"{len(how) + len(other)} faulty operations are invisible and flip the readout: "
                    f"{list(how + other)}")
    return None
