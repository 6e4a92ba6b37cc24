"""
C06: readout parsing is exact and lossless on every readout string.

One-bit probes give each syndrome bit its location; then every readout string (small codes) or every base
string with all single and double changes (larger ones) must parse to exactly the logical value and the
changes between consecutive rounds - through the encoder, the decoder and the circuit.
"""
from itertools import combinations, product

from qtcodes import TopologicalCircuit, TopologicalRegister

from ..codes import Code, all_codes

LEVEL = "model_checking"
RULE = ("every code x odd lattice x number of rounds in bounds; every readout string of both styles when its bits "
        "are few, otherwise every single and double change of structured base strings; states = strings parsed, "
        "transitions = syndrome-bit changes compared")
ASSUMPTIONS = []


def cases(tier):
    th = tier == "thorough"
    full = 18 if th else 15
    for c in all_codes(9 if th else 7, 81 if th else 49, 15 if th else 11, minn=1):
        nb = c.n - 1
        for R in (1, 2, 3, 4, 5, 6, 12):
            for via in ("encoder", "decoder", "circuit"):
                if via != "encoder" and (R > 3 or c.n > 25):
                    continue
                for style in ("log", "Z", "X"):
                    head = 1 if style == "log" else c.n
                    if c.n == 1 and style != "log":
                        continue
                    if nb * R + head <= (full if via == "encoder" else full - 4):
                        yield {"code": c.spec, "R": R, "via": via, "style": style, "mode": "all"}
                    else:
                        if R > 4 and c.n > 9:
                            continue
                        if nb * R + head > (200 if th else 160):
                            continue
                        yield {"code": c.spec, "R": R, "via": via, "style": style, "mode": "changes"}
    # many syndrome bits and many rounds: base strings and single changes
    big = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((9, 9), (11, 11), (13, 13), (3, 23), (23, 3), (15, 9))]
    big += [Code("RepB", d, 1) for d in (21, 41, 71)] + [Code("RepP", 1, d) for d in (21, 41, 71)]
    for c in big:
        for R in (1, 2, 3) if c.n <= 81 or th else (1, 2):
            for style in ("log", "Z", "X"):
                for via in ("encoder", "decoder") if c.n <= 81 or th else ("encoder",):
                    yield {"code": c.spec, "R": R, "via": via, "style": style, "mode": "single"}
    for c in (Code("XXZZ", 3, 3), Code("XZZX", 3, 3), Code("RepB", 3, 1), Code("RepP", 1, 3)):
        for R in (11, 21, 40, 101) + ((140, 270) if c.n == 3 else ()):
            for style in ("log", "Z", "X"):
                yield {"code": c.spec, "R": R, "via": "encoder", "style": style, "mode": "single"}


def parser(c, via, T):
    if via == "encoder":
        q = c.qubit()
        return q.parse_readout
    if via == "decoder":
        return c.decoder(max(T, 1)).parse_readout
    treg = TopologicalRegister(ctypes=["XXZZ", c.ctype], params=[{"d": 3}, c.params()])
    circ = TopologicalCircuit(treg)
    obj = T % 2 == 0
    return lambda s, b: circ.parse_readout(treg[1] if obj else 1, s, b)


def strings(c, spec):
    """Yields (head bits, [round bits]) as tuples indexed by bit position."""
    R, nb = spec["R"], c.n - 1
    head = 1 if spec["style"] == "log" else c.n
    n = head + nb * R
    if spec["mode"] == "all":
        for v in product((0, 1), repeat=n):
            yield v
        return
    bases = [(0,) * n, (1,) * n, tuple(i % 2 for i in range(n)), tuple(int(i % 3 == 1) for i in range(n)),
             tuple(int((i - head) // max(nb, 1) % 2 == 0) for i in range(n))]
    for b in bases:
        yield b
        for i in range(n):
            v = list(b)
            v[i] ^= 1
            yield tuple(v)
    if spec["mode"] == "single":
        return
    for b in bases[:2] if n <= 90 else bases[:1]:
        for i, j in combinations(range(n), 2):
            v = list(b)
            v[i] ^= 1
            v[j] ^= 1
            yield tuple(v)


def text(bits):
    return "".join("1" if b else "0" for b in reversed(bits))


def run_case(spec, st):
    c = Code.of(spec["code"])
    nb, R, style = c.n - 1, spec["R"], spec["style"]
    head = 1 if style == "log" else c.n
    parse = parser(c, spec["via"], R - 1)
    basis = "Z" if style == "log" else style
    if spec["R"] == 1 and spec["via"] == "encoder" and style == "log":
        # the basis is irrelevant for a logical readout and may be omitted
        q = c.qubit()
        if q.parse_readout("1 " + "0" * nb)[0] != 1:
            return "readout type is not optional for a logical readout"

    # location of each bit, probed with two rounds
    loc = {}
    for k in range(nb):
        s = "0 " + text([int(i == k) for i in range(nb)]) + " " + "0" * nb
        lg, h = parse(s, "Z")
        hits = [(t,) + tuple(x) for t in ("Z", "X") for x in h[t]]
        if lg != 0 or len(hits) != 1 or hits[0][1] != 0:
            return f"{s}: parsed as {lg} {hits}"
        loc[k] = (hits[0][0], hits[0][2], hits[0][3])
        if loc[k][1:] not in c.checks(loc[k][0]):
            return f"bit {k} is reported outside the lattice at {loc[k]}"
    if len(set(loc.values())) != nb:
        return "two syndrome bits share a location"

    bit_of = {v: k for k, v in loc.items()}
    final = []  # (bit index, data indices) of the checks a lattice readout determines
    if head > 1:
        for site in c.checks(basis):
            final.append((bit_of[(basis,) + site], [a * c.dw + b for a, b in c.support(site)]))
        cross = [i for i in range(c.n) if c.crosses(basis, i)]
    for v in strings(c, spec):
        hd = v[:head]
        rounds = [v[head + r * nb: head + (r + 1) * nb] for r in range(R)]
        s = " ".join([text(hd)] + [text(r) for r in reversed(rounds)])
        if head == 1:
            want_log = hd[0]
        else:
            want_log = sum(hd[i] for i in cross) & 1
            last = list(rounds[-1])
            for k, sup in final:
                last[k] = sum(hd[i] for i in sup) & 1
            rounds = rounds + [tuple(last)]
        want = sorted((loc[k][0], t) + loc[k][1:] for t in range(len(rounds) - 1) for k in range(nb)
                      if rounds[t][k] != rounds[t + 1][k])
        lg, h = parse(s, basis)
        if sorted(h) != ["X", "Z"]:
            return f"{s}: hit types {sorted(h)}"
        got = sorted((t,) + tuple(x) for t in h for x in h[t])
        st["states"] += 1
        st["traces"] += 1
        st["transitions"] += len(want)
        if lg != want_log or got != want:
            return f"{s} ({basis}): parsed as {lg} {got}, expected {want_log} {want}"
    return None
