"""
C20: below threshold, bigger codes are strictly better - exactly.

The effect of every single data error is taken from the real circuit and parser; all 2^n error patterns are then
enumerated exactly by (syndrome, readout flip, weight), every syndrome is decoded by the real decoder, and the exact
rational logical error probability of every distance is compared.
"""
from fractions import Fraction

import numpy as np

from ..codes import Code
from ..mem import Memory

LEVEL = "model_checking"
RULE = ("all 2^n patterns of errors on the data qubits (exact enumeration by syndrome, flip and weight) for every code "
        "family, basis and distance in bounds x error rates x degeneracy weighting off/on; states = (syndrome, flip) "
        "classes, transitions = class transitions of the enumeration, traces = syndromes decoded by the real decoder")
ASSUMPTIONS = ["errors are of the kind the basis sees (the others never matter), independent with probability p on "
               "every data qubit", "sub-threshold range for the compared distances: p <= 0.07 (surface), p <= 0.3 "
               "(repetition)"]

SURF = [Fraction(1, 10 ** 6), Fraction(1, 1000), Fraction(1, 100), Fraction(3, 100), Fraction(1, 20), Fraction(7, 100)]
REP = [Fraction(1, 10 ** 6), Fraction(1, 1000), Fraction(1, 50), Fraction(1, 10), Fraction(1, 5), Fraction(3, 10)]
CASE_TIMEOUT = {"quick": 400, "thorough": 3600}


def cases(tier):
    th = tier == "thorough"
    for fam in ("XXZZ", "XZZX"):
        for typ in "ZX":
            yield {"fam": fam, "typ": typ, "p": None}
            for p in SURF if fam == "XXZZ" or th else SURF[2:5]:
                yield {"fam": fam, "typ": typ, "p": [p.numerator, p.denominator]}
    for fam in ("RepB", "RepP"):
        yield {"fam": fam, "typ": "Z" if fam == "RepB" else "X", "p": None}
        for p in REP:
            yield {"fam": fam, "typ": "Z" if fam == "RepB" else "X", "p": [p.numerator, p.denominator]}
    # rectangles and several rounds: the order of the failure probability in the distance of the basis
    for kind in ("XXZZ", "XZZX"):
        for dh, dw in [(1, 3), (3, 1), (1, 5), (5, 1), (3, 5), (5, 3), (7, 3), (3, 7), (1, 9), (9, 1)] + \
                ([(9, 3), (3, 9)] if th else []):
            for typ in "ZX":
                c = Code(kind, dh, dw)
                if c.has(typ) and len(c.checks(typ)) <= (15 if th else 12):
                    for p in (None, [1, 20]):
                        yield {"rect": c.spec, "typ": typ, "p": p}


def lattices(fam, th=False):
    if fam in ("XXZZ", "XZZX"):
        return [Code(fam, d, d) for d in (1, 3, 5)]
    mk = (lambda d: Code("RepB", d, 1)) if fam == "RepB" else (lambda d: Code("RepP", 1, d))
    return [mk(d) for d in (3, 5, 7, 9, 11, 13)]


def effects(c, typ):
    """(hits, flip) of the error on every data qubit, from the real circuit and the real parser."""
    mem = Memory(c, typ, 0, 1, "l", meas_faults=False)
    dec = c.decoder(1)
    out = []
    for i in range(c.n):
        phys = "x" if c.effective("x", i)[0 if typ == "Z" else 1] else "z"
        v, h = dec.parse_readout(mem.string(mem.mask([("d", 0, i, phys)])), typ)
        out.append((h[typ], v))
    return dec, out


def enumerate_failures(c, typ, p, st):
    """Number of failing patterns by weight."""
    if c.n == 1:
        return [0, 1]  # an unprotected qubit
    dec, eff = effects(c, typ)
    nodes = sorted({h for hits, _ in eff for h in hits})
    idx = {h: i for i, h in enumerate(nodes)}
    k = len(nodes)
    size = 2 << k
    cnt = np.zeros((c.n + 1, size), dtype=np.int64)
    cnt[0, 0] = 1
    ar = np.arange(size)
    for hits, flip in eff:
        m = flip
        for h in hits:
            m ^= 2 << idx[h]
        nxt = cnt.copy()
        nxt[1:, ar ^ m] += cnt[:-1, ar]
        cnt = nxt
        st["transitions"] += size
    assert int(cnt.sum()) == 1 << c.n
    st["states"] += size
    st["patterns"] += 1 << c.n
    other = "X" if typ == "Z" else "Z"
    fails = [0] * (c.n + 1)
    for s in range(1 << k):
        cls0, cls1 = cnt[:, s << 1], cnt[:, s << 1 | 1]
        if not cls0.any() and not cls1.any():
            continue
        hits = [nodes[i] for i in range(k) if s >> i & 1]
        got = dec.correct_readout({typ: hits, other: []}, typ, 0, err_prob=None if p is None else float(p))
        st["traces"] += 1
        # decoded flip `got`: patterns whose flip differs fail
        bad = cls0 if got else cls1
        for w in range(c.n + 1):
            fails[w] += int(bad[w])
    return fails


def prob(fails, p):
    n = len(fails) - 1
    return sum(f * p ** w * (1 - p) ** (n - w) for w, f in enumerate(fails))


def run_case(spec, st):
    p = None if spec["p"] is None else Fraction(*spec["p"])
    if "rect" in spec:
        c, typ = Code.of(spec["rect"]), spec["typ"]
        return order(c, typ, enumerate_failures(c, typ, p, st))
    fam, typ = spec["fam"], spec["typ"]
    grid = (SURF if fam in ("XXZZ", "XZZX") else REP) if p is None else [p]
    prev = None
    for c in lattices(fam):
        fails = enumerate_failures(c, typ, p, st)
        e = order(c, typ, fails)
        if e:
            return e
        cur = [prob(fails, x) for x in grid]
        if c.n > 1:
            for x, v in zip(grid, cur):
                if v >= x:
                    return f"{c}: logical error probability {float(v):.3g} is not below the physical rate {float(x)}"
        if prev is not None:
            for x, a, b in zip(grid, prev, cur):
                if b >= a:
                    return (f"{c}, basis {typ}: logical error probability {float(b):.4g} at p={float(x)} is not below "
                            f"the {float(a):.4g} of the next smaller code")
        prev = cur
    return None


def order(c, typ, fails):
    d = c.distance(typ)
    low = next((w for w, f in enumerate(fails) if f), None)
    if low is not None and low < (d + 1) // 2:
        return f"{c}, basis {typ}: {fails[low]} error patterns of weight {low} are decoded wrongly"
    return None
