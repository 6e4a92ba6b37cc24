"""
C16: up to (d-1)/2 faults are always corrected, from circuit to logical value.

Every set of at most (d-1)/2 data errors between rounds and intermediate measurement flips is executed on the
real memory-experiment circuit (symbolically: one run, faults and random outcomes are variables), the exact
result string of every measurement branch in bounds is rendered, and the real decoder has to return the encoded
value.
"""
from itertools import combinations

from .. import aer
from ..codes import Code
from ..mem import Memory

LEVEL = "model_checking"
RULE = ("every code x odd lattice x basis x logical value x readout style x rounds in bounds; for each, every fault set "
        "of weight <= (d-1)/2 (all three Paulis when there are few sets, else the kind the basis sees plus one of the "
        "others), for many rounds every such set within two neighbouring rounds; all measurement branches for few random outcomes, else the three extreme ones; states = (fault set, "
        "branch), transitions = decoded strings")
ASSUMPTIONS = ["measurement faults only in intermediate rounds, as stated"]


def lattices(th):
    out = []
    for d in (3, 5, 7, 9) + ((11, 13) if th else ()):
        out += [Code("RepB", d, 1), Code("RepP", 1, d)]
    for dh, dw in [(1, 1), (1, 3), (3, 1), (3, 3), (3, 5), (5, 3), (1, 5), (5, 1), (5, 5), (3, 7), (7, 3), (1, 7), (7, 1),
                   (5, 7), (7, 5), (7, 7), (3, 9), (9, 3)] + ([(9, 5), (5, 9), (9, 1), (1, 9)] if th else []):
        out += [Code("XXZZ", dh, dw), Code("XZZX", dh, dw)]
    return out


def cases(tier):
    th = tier == "thorough"
    limit = 400000 if th else 20000
    for c in lattices(th):
        for typ in "ZX":
            if c.ctype == "Repetition" and not c.has(typ):
                continue
            w = (c.distance(typ) - 1) // 2
            for T in ((1, 2, 3, 4, 6) if th else (1, 2, 4)) + ((12, 24) if c.n <= 3 or th and c.n <= 9 else (12,) if c.n <= 9 else ()):
                for kinds in ("all", "own") if T < 12 or th else ("own",):
                    size = number(c, T, w, kinds)
                    if size <= limit:
                        break
                else:
                    continue
                for style in "ml":
                    for value in (0, 1):
                        if (size > 4000 or T >= 12) and (style == "l") != bool(value) and not th:
                            continue  # large ones: (m, 0) and (l, 1)
                        parts = max(1, size // 4000)
                        for part in range(parts):
                            yield {"code": c.spec, "typ": typ, "T": T, "w": w, "kinds": kinds, "style": style,
                                   "value": value, "part": part, "parts": parts}
    # many rounds: every set within two neighbouring rounds
    for c in [Code("RepB", 5, 1), Code("RepP", 1, 5)] + [Code(k, 1, 5) for k in ("XXZZ", "XZZX")] + \
            [Code(k, *x) for k in ("XXZZ", "XZZX") for x in ((3, 5), (5, 3), (5, 1)) if th] + \
            ([Code("RepB", 7, 1)] if th else []):
        for typ in "ZX":
            if c.has(typ) and c.distance(typ) > 3:
                for T in (24, 70, 140) if th else (24,):
                    for style, value in ("m", 0), ("l", 1):
                        parts = 1 + T // 9
                        for part in range(parts):
                            yield {"code": c.spec, "typ": typ, "T": T, "w": (c.distance(typ) - 1) // 2, "kinds": "own",
                                   "style": style, "value": value, "part": part, "parts": parts, "window": 1}
    # large lattices: every single fault
    for kind, dh, dw in [(k, a, b) for k in ("XXZZ", "XZZX") for a, b in
                         ((9, 9), (11, 11), (3, 15), (15, 3), (5, 11), (11, 5))] + \
            [("RepB", 33, 1), ("RepP", 1, 33), ("RepB", 71, 1), ("RepP", 1, 71), ("RepB", 131, 1), ("RepP", 1, 131)]:
        c = Code(kind, dh, dw)
        for typ in "ZX":
            if c.has(typ):
                for style, value in ("m", 0), ("l", 1):
                    for T in (1, 2) if c.n < 100 or th else (1,):
                        yield {"code": c.spec, "typ": typ, "T": T, "w": 1, "kinds": "own", "style": style,
                               "value": value, "part": 0, "parts": 1}


def number(c, T, w, kinds):
    from math import comb

    f = c.n * T * (3 if kinds == "all" else 1) + (T - 1) * (c.n - 1 if kinds == "all" else (c.n - 1) // 2 + 1)
    return sum(comb(f, i) for i in range(w + 1))


def run_case(spec, st):
    c, typ, T = Code.of(spec["code"]), spec["typ"], spec["T"]
    value = spec["value"]
    mem = Memory(c, typ, value, T, spec["style"])
    dec = c.decoder(T)
    faults = atoms(c, typ, T, mem, spec["kinds"])
    branches = branch_masks(mem, spec)
    memo = {}
    n = -1
    for w in range(spec["w"] + 1):
        for fs in sets_of(faults, w, spec.get("window")):
            n += 1
            if n % spec["parts"] != spec["part"]:
                continue
            if w > 1 and len({f[0] for f in fs}) < w:
                continue  # two Paulis on the same qubit and slot are the third one
            m = 0
            for _, mask, _ in fs:
                m ^= mask
            for b in branches if w <= 1 else branches[n % len(branches):][:1]:
                s = mem.string(m ^ b)
                st["states"] += 1
                got = memo.get(s)
                if got is None:
                    got = memo[s] = dec.correct_readout(s, typ)
                    st["transitions"] += 1
                if got != value:
                    return f"{[f[2] for f in fs]} (weight {w}) gives {s!r}, decoded to {got} instead of {value}"
    if spec["part"] == 0:
        # the same with a stock simulator for the first, middle and last maximal set
        sets = [tuple(faults[i:i + spec["w"]]) for i in (0, len(faults) // 2, max(0, len(faults) - spec["w"]))]
        for fs in sets:
            if len({f[0] for f in fs}) < len(fs):
                continue
            circ = mem.explicit([k for f in fs for k in f[2]])
            for s in aer.counts(circ, 6):
                st["aer"] += 1
                st["traces"] += 1
                if dec.correct_readout(s, typ) != value:
                    return f"qiskit-aer: {[f[2] for f in fs]} gives {s!r}, not decoded to {value}"
    st["traces"] += 1
    return None


def sets_of(faults, w, window):
    if window is None or w == 0:
        yield from combinations(faults, w)
        return
    times = sorted({f[0][1] for f in faults})
    for t in times:
        now = [f for f in faults if f[0][1] == t]
        late = [f for f in faults if t < f[0][1] <= t + window]
        for k in range(1, w + 1):
            for a in combinations(now, k):
                for b in combinations(late, w - k):
                    yield a + b


def atoms(c, typ, T, mem, kinds):
    """[(place, mask, keys)] of the single faults."""
    out = []
    for t in range(T):
        for i in range(c.n):
            x, z = ("d", t, i, "x"), ("d", t, i, "z")
            if kinds == "all":
                options = [(x,), (z,), (x, z)]
            else:
                # the Pauli this basis sees; every other qubit suffers it together with the other one (y)
                own = x if c.effective("x", i)[0 if typ == "Z" else 1] else z
                options = [(own,)] if (i + t) % 2 else [(x, z)]
            for ks in options:
                out.append((("d", t, i), mem.mask(ks), ks))
    sites = c.checks(typ)
    for k in mem.keys("m"):
        out.append((k, mem.mask([k]), (k,)))
    if kinds == "own":
        # only measurement faults that produce hits of this basis
        keep = []
        dec = c.decoder(T)
        for a in out:
            if a[0][0] == "d" or dec.parse_readout(mem.string(a[1]), typ)[1][typ]:
                keep.append(a)
        out = keep
    return out


def branch_masks(mem, spec):
    r = [1 << v for v in mem.rand]
    if len(r) <= (4 if spec["w"] <= 1 else 2):
        out = [0]
        for b in r:
            out += [x ^ b for x in out]
        return out
    return [0, sum(r), sum(r[::2])]
