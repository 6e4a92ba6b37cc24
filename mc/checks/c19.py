"""
C19: look-up decoding is Bayes' rule on the latest tables.

Every bounded history of set / reset / query operations on two real decoders (with the caller reusing and editing its
dictionaries) is executed; after every operation every string is queried and compared with Bayes' rule in exact
rational arithmetic on the reference tables.
"""
from fractions import Fraction
from itertools import product

from ..codes import Code

LEVEL = "model_checking"
RULE = ("every word up to the bound over set(basis, value, table) on two decoders, reset, and the caller editing or "
        "reusing the dictionary it passed; after every letter every string is queried in both bases; plus every pair "
        "of small count tables x every prior of a grid; states = table states reached, transitions = operations, "
        "evaluations = queries compared")
ASSUMPTIONS = ["strings in no table of the basis, and tables/priors whose Bayes denominator is zero, are outside the "
               "statement; equal posteriors may decode to either value"]

S = ["0 00 00", "1 01 00", "1 10 11"]
TABLES = [{S[0]: 3, S[1]: 1}, {S[0]: 1, S[1]: 1, S[2]: 2}, {S[2]: 5}]
LETTERS = [("set", b, v, t) for b in "XZ" for v in (0, 1) for t in range(3)] + \
          [("setB", "Z", 0, 1), ("setB", "X", 1, 0), ("reset",), ("resetB",), ("edit",), ("reuse", "Z", 1),
           ("reuse", "X", 0)]
DECS = [("XXZZ", 3, 3, 1), ("RepB", 3, 1, 1), ("RepP", 1, 3, 1)]
PRIORS = [None, [0.5, 0.5], [0.25, 0.75], [1.0, 0.0], [0.0, 1.0], [0.125, 0.875], [0.75, 0.25]]


def cases(tier):
    th = tier == "thorough"
    for d in range(len(DECS)):
        for a, b in product(range(len(LETTERS)), repeat=2):
            yield {"dec": d, "head": [a, b], "len": (5 if th else 4) if d == 0 else 3}
    m = 5 if th else 4
    rows = list(product(range(m), repeat=2))
    for d in range(len(DECS)):
        for r in rows:
            yield {"dec": d, "table": list(r), "max": m}
    # real strings, many entries, several lattices and rounds
    for i, (spec, T) in enumerate([(["XXZZ", 3, 3], 1), (["XXZZ", 3, 3], 3), (["XXZZ", 5, 5], 1), (["RepB", 7, 1], 2),
                                   (["RepP", 1, 9], 1), (["XXZZ", 3, 7], 2), (["XXZZ", 1, 1], 1), (["XZZX", 5, 3], 4)]):
        for n in (2, 9, 65, 300) + ((2000,) if th else ()):
            yield {"code": spec, "T": T, "entries": n}
    for a in (1, 7, 2048, 10 ** 6, 3 * 10 ** 15):
        for b in (1, 2, 4096, 10 ** 9):
            yield {"dec": 0, "big": [a, b]}
    # tables that differ by one shot only
    for n in [2 ** k for k in range(1, 27, 2 if not th else 1)] + [10 ** k for k in range(1, 9)]:
        yield {"dec": 0, "near": n}


class Ref:
    def __init__(self):
        self.t = {(b, v): {} for b in "XZ" for v in (0, 1)}

    def posterior(self, s, b, prior):
        like = []
        for v in (0, 1):
            t = self.t[(b, v)]
            tot = sum(t.values())
            like.append(Fraction(t[s], tot) if s in t and tot else Fraction(0))
        pr = [Fraction(1, 2)] * 2 if prior is None else [Fraction(x) for x in prior]
        ps = like[0] * pr[0] + like[1] * pr[1]
        if ps == 0:
            return None
        return [like[i] * pr[i] / ps for i in (0, 1)]


def query(dec, ref, priors, st, what):
    for b in "XZ":
        for s in S:
            want = ref.posterior(s, b, None)
            if want is None:
                continue
            st["evaluations"] += 1
            st["traces"] += 1
            got = dec.correct_readout_look_up_table(s, b)
            ok = {0, 1} if abs(want[0] - want[1]) < Fraction(1, 10 ** 12) else {int(want[1] > want[0])}
            if got not in ok:
                return f"{what}: {s!r} in basis {b} decodes to {got}, posterior is {[float(x) for x in want]}"
            if not hasattr(dec, "_run_look_up"):
                continue
            for p in priors:
                want = ref.posterior(s, b, p)
                if want is None:
                    continue
                arg = None if p is None else list(p)
                got = dec._run_look_up(s, b) if p is None else dec._run_look_up(s, b, arg)
                if arg is not None and arg != list(p):
                    return f"{what}: the caller's prior was changed to {arg}"
                st["evaluations"] += 1
                if len(got) != 2 or any(abs(float(g) - float(w)) > 1e-9 for g, w in zip(got, want)):
                    return (f"{what}: posterior of {s!r} in basis {b} with prior {p} is {list(got)}, "
                            f"Bayes' rule gives {[float(x) for x in want]}")
    return None


def wide(spec, st):
    """Tables of `entries` strings of the code (both readout styles), every string queried, after growing in steps."""
    c, T, n = Code.of(spec["code"]), spec["T"], spec["entries"]
    nb = c.n - 1
    strings = []
    for k in range(n):
        bits = format(k * 2654435761 % (1 << min(60, 2 * nb + 2)), "b").zfill(nb * (T + 1) + 2)
        bits = bits[::-1]
        rounds = [bits[i * nb:(i + 1) * nb] for i in range(T + 1)]
        head = "01"[k % 2] if k % 3 else format(k % (1 << c.n), f"0{c.n}b")
        s = " ".join([head] + (rounds if nb else [""] * (T + 1))).strip()
        if s not in strings:
            strings.append(s)
    dec = c.decoder(T)
    for b in "XZ":
        for step in (max(1, len(strings) // 3), len(strings)):
            t0 = {s: (i * 7 + 3) % 11 for i, s in enumerate(strings[:step])}
            t1 = {s: (i * 5 + 1) % 13 for i, s in enumerate(strings[:step][::-1]) if i % 4}
            if not sum(t0.values()) or not sum(t1.values()):
                continue
            dec.set_look_up_table(b, 0, dict(t0))
            dec.set_look_up_table(b, 1, dict(t1))
            ref = Ref()
            ref.t[(b, 0)], ref.t[(b, 1)] = t0, t1
            st["states"] += 1
            st["transitions"] += 2
            n0, n1 = sum(t0.values()), sum(t1.values())
            for s in strings[:step]:
                l0, l1 = Fraction(t0.get(s, 0), n0), Fraction(t1.get(s, 0), n1)
                if l0 == l1:
                    continue
                st["evaluations"] += 1
                st["traces"] += 1
                got = dec.correct_readout_look_up_table(s, b)
                if got != int(l1 > l0):
                    return f"{len(t0)} entries, {s!r} in {b}: likelihoods {l0}, {l1}, decoded {got}"
    return None


def run_case(spec, st):
    if "entries" in spec:
        return wide(spec, st)
    kind, dh, dw, T = DECS[spec["dec"]]
    c = Code(kind, dh, dw)
    if "table" in spec:
        t0 = {S[i]: n for i, n in enumerate(spec["table"])}
        for m in product(range(spec["max"]), repeat=2):
            for drop in (False, True):
                for b in "XZ":
                    a1 = {S[i]: n for i, n in enumerate(m)}
                    a0 = dict(t0)
                    if drop:  # absent instead of zero counts
                        a0 = {k: n for k, n in a0.items() if n}
                        a1 = {k: n for k, n in a1.items() if n}
                    if any(t and not sum(t.values()) for t in (a0, a1)):
                        continue  # a table that lists strings but no shots has no frequencies
                    e = two(c.decoder(T), b, a0, a1, st)
                    if e:
                        return e
        return None
    if "big" in spec:
        x, y = spec["big"]
        return two(c.decoder(T), "Z", {S[0]: x, S[1]: y, S[2]: 1}, {S[0]: y, S[1]: x}, st)
    if "near" in spec:
        n = spec["near"]
        for b in "XZ":
            for k in (1, 2, 3):
                for t0, t1 in (({S[0]: n, S[1]: n + k}, {S[0]: n + k, S[1]: n}), ({S[0]: n, S[1]: n + k}, {S[0]: n, S[1]: n}),
                               ({S[0]: k, S[1]: n * 20}, {S[0]: k + 1, S[1]: n * 20})):
                    e = two(c.decoder(T), b, t0, t1, st) or two(c.decoder(T), b, t1, t0, st)
                    if e:
                        return e
        return None
    from ..hist import sequences

    for tail in sequences(range(len(LETTERS)), spec["len"] - 2):
        e = history(c, T, [LETTERS[i] for i in tuple(spec["head"]) + tail], st)
        if e:
            return e
    return None


def two(dec, b, t0, t1, st):
    ref = Ref()
    dec.set_look_up_table(b, 0, t0)
    dec.set_look_up_table(b, 1, t1)
    ref.t[(b, 0)], ref.t[(b, 1)] = dict(t0), dict(t1)
    st["states"] += 1
    st["transitions"] += 2
    return query(dec, ref, PRIORS, st, f"tables {t0} and {t1} in basis {b}")


def history(c, T, word, st):
    A, B = c.decoder(T), c.decoder(T)
    ra, rb = Ref(), Ref()
    last = {S[1]: 2}
    for k, w in enumerate(word):
        st["transitions"] += 1
        if w[0] in ("set", "setB"):
            last = dict(TABLES[w[3]])
            dec, ref = (A, ra) if w[0] == "set" else (B, rb)
            dec.set_look_up_table(w[1], w[2], last)
            ref.t[(w[1], w[2])] = dict(last)
        elif w[0] == "reset":
            A.reset_look_up_table()
            ra = Ref()
        elif w[0] == "resetB":
            B.reset_look_up_table()
            rb = Ref()
        elif w[0] == "edit":
            # the caller goes on counting in its own dictionary
            last[S[0]] = last.get(S[0], 0) + 4
            last.pop(S[2], None)
        elif w[0] == "reuse":
            last[S[1]] = last.get(S[1], 0) + 1
            A.set_look_up_table(w[1], w[2], last)
            ra.t[(w[1], w[2])] = dict(last)
        # the histories with a common prefix share it: query where the word ends, and everywhere in long ones
        if k >= 1:
            st["states"] += 1
            e = query(A, ra, (None, [0.25, 0.75]), st, f"{word[:k + 1]}")
            e = e or query(B, rb, (None,), st, f"{word[:k + 1]} (second decoder)")
            if e:
                return e
    return None
