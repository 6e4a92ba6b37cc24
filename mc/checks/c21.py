"""
C21: the reported logical error rate is the exact failing fraction.

The real TopologicalBenchmark evaluates every small dictionary of strings and counts, in every order, repeatedly and
in every bounded history of evaluations, with a controlled decoder (every assignment of outcomes, dependent on the
error probability) and with the real decoders on their whole string space.
"""
from fractions import Fraction
from itertools import permutations, product

from qiskit import QuantumCircuit
from qtcodes import TopologicalBenchmark

from ..codes import Code

LEVEL = "model_checking"
RULE = ("every dictionary over the string alphabet with counts in range x every insertion order x every assignment of "
        "decoder outcomes x both correct values x error probabilities; every bounded history of evaluations on one "
        "benchmark; every string and pair of strings of small codes with the real decoder; states = dictionaries in "
        "an order, transitions = evaluations, traces = rates compared with exact fractions")
ASSUMPTIONS = ["rates are compared to 1e-12"]

S = ["0 00", "1 01", "1 10", "0 11"]
P = [None, 0.05, 0.3, 0.7]


class Fake:
    """A decoder whose answers are a table of (string, error probability)."""

    def __init__(self, table):
        self.params = {"d": (3, 1), "T": 1}
        self.table = table
        self.calls = []

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        self.calls.append((syndromes, logical_readout_type, err_prob))
        return self.table[(syndromes, err_prob)]


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3, 4):
        for vals in product((0, 1), repeat=n):
            for shift in range(2 ** n if n < 4 or th else 4):
                yield {"vals": list(vals), "shift": shift, "max": (5 if th else 4) if n < 4 else 3}
    for a in range(6):
        for b in range(6):
            yield {"hist": [a, b], "len": 5 if th else 4}
    for n in (5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 100, 101, 128, 257, 1000) + ((4097,) if th else ()):
        yield {"many": n}
    for spec, T in [(["RepB", 3, 1], 1), (["RepB", 3, 1], 2), (["XXZZ", 3, 3], 1), (["RepB", 5, 1], 1),
                    (["XXZZ", 3, 1], 1), (["XXZZ", 3, 5], 1)]:
        for correct in (0, 1):
            for p in P:
                yield {"real": spec, "T": T, "correct": correct, "p": p}


def ok(rate, bad, total):
    return abs(float(rate) - float(Fraction(bad, total))) <= 1e-12


def bench(dec, correct):
    return TopologicalBenchmark(decoder=dec, circ=QuantumCircuit(1), noise_model_func=None,
                                correct_logical_value=correct)


def run_case(spec, st):
    if "hist" in spec:
        return histories(spec, st)
    if "real" in spec:
        return real(spec, st)
    if "many" in spec:
        return many(spec["many"], st)
    vals, shift = spec["vals"], spec["shift"]
    n = len(vals)
    # outcomes depend on the error probability in every possible way: flipped by bit j of `shift` for one p
    table = {}
    for j, v in enumerate(vals):
        table[(S[j], None)] = v
        table[(S[j], 0.05)] = v ^ (shift >> j & 1)
        table[(S[j], 0.3)] = 1 - v
        table[(S[j], 0.7)] = v ^ (shift >> (n - 1 - j) & 1)
    for correct in (0, 1):
        b = bench(Fake(table), correct)
        for counts in product(range(spec["max"]), repeat=n):
            total = sum(counts)
            if not total:
                continue
            for order in permutations(range(n)):
                d = {S[j]: counts[j] for j in order}
                st["states"] += 1
                for p in P:
                    bad = sum(counts[j] for j in range(n) if table[(S[j], p)] != correct)
                    st["transitions"] += 1
                    st["traces"] += 1
                    got = b.logical_error_rate(d, err_prob=p) if p is not None else b.logical_error_rate(d)
                    if not ok(got, bad, total):
                        return f"{d} with outcomes {[table[(s, p)] for s in d]}, correct {correct}, p={p}: {got} " \
                               f"instead of {bad}/{total}"
                if list(d.items()) != [(S[j], counts[j]) for j in order]:
                    return "the dictionary was changed"
                if {c[1] for c in b.decoder.calls} - {"Z"}:
                    return f"decoded in another basis than Z: {b.decoder.calls[-1]}"
                b.decoder.calls.clear()
    # large counts
    for scale in (10 ** 6, 2 ** 31, 2 ** 40):
        b = bench(Fake(table), 0)
        d = {S[j]: scale * (j + 1) + j for j in range(n)}
        bad = sum(d[S[j]] for j in range(n) if vals[j])
        if not ok(b.logical_error_rate(d), bad, sum(d.values())):
            return f"{d}: wrong rate for large counts"
    return None


def many(n, st):
    """Dictionaries of n strings: every single failing (succeeding) string, and patterns; several count profiles."""
    strings = [f"{i % 2} {i >> 1:012b}" for i in range(n)]
    profiles = [[1] * n, [i + 1 for i in range(n)], [0 if i % 3 else 7 for i in range(n)],
                [10 ** 9 if i == n // 2 else 1 for i in range(n)], [1 << (i % 40) for i in range(n)]]
    step = 1 if n <= 33 else max(1, n // 16)
    outcomes = [[0] * n, [1] * n, [i % 2 for i in range(n)], [int(i < n // 2) for i in range(n)]]
    for i in list(range(0, n, step)) + [n - 1]:
        outcomes += [[int(j == i) for j in range(n)], [int(j != i) for j in range(n)]]
    for out in outcomes:
        table = {(s, p): v for s, v in zip(strings, out) for p in (None, 0.05)}
        for prof in profiles:
            for order in (1, -1):
                d = dict(list(zip(strings, prof))[::order])
                for correct in (0, 1):
                    b = bench(Fake(table), correct)
                    st["states"] += 1
                    st["transitions"] += 1
                    st["traces"] += 1
                    bad = sum(c for c, v in zip(prof, out) if v != correct)
                    got = b.logical_error_rate(d, err_prob=0.05 if order > 0 else None)
                    if not ok(got, bad, sum(prof)):
                        return f"{n} strings, outcomes {out[:40]}, counts {prof[:40]}: {got} instead of {bad}/{sum(prof)}"
    return None


DICTS = [{S[0]: 3, S[1]: 1}, {S[1]: 2}, {S[1]: 1, S[0]: 3, S[2]: 4}]


def histories(spec, st):
    """Every word of evaluations (dictionary, p) on one benchmark, alternating with a second benchmark."""
    from ..hist import sequences

    table = {}
    for j, s in enumerate(S):
        table[(s, None)] = j % 2
        table[(s, 0.05)] = int(j > 1)
    letters = [(i, p) for i in range(3) for p in (None, 0.05)]
    for tail in sequences(range(6), spec["len"] - 2):
        word = [letters[i] for i in spec["hist"] + list(tail)]
        b0, b1 = bench(Fake(table), 0), bench(Fake({k: 1 - v for k, v in table.items()}), 0)
        st["states"] += 1
        for k, (i, p) in enumerate(word):
            d = dict(DICTS[i])
            bad = sum(c for s, c in d.items() if table[(s, p)])
            total = sum(d.values())
            st["transitions"] += 2
            st["traces"] += 2
            got = b0.logical_error_rate(d, err_prob=p)
            if not ok(got, bad, total):
                return f"after {word[:k]}: {d}, p={p}: {got} instead of {bad}/{total}"
            got = b1.logical_error_rate(d, p)
            if not ok(got, total - bad, total):
                return f"second benchmark after {word[:k]}: {d}, p={p}: {got} instead of {total - bad}/{total}"
        for b in (b0, b1):
            if len(b.data["physical_error_rates"]) or len(b.data["logical_error_rates"]):
                return "evaluating a dictionary added points to the benchmark's data"
    return None


def real(spec, st):
    c, T, correct, p = Code.of(spec["real"]), spec["T"], spec["correct"], spec["p"]
    n = c.n - 1
    bits = n * (T + 1)
    if bits <= 8:
        words = range(1 << bits)
    else:  # every combination of at most two set bits
        words = sorted({0} | {1 << i | 1 << j for i in range(bits) for j in range(bits)})
    strings = []
    for w in words:
        s = format(w, f"0{bits}b")
        for v in "01":
            strings.append(" ".join([v] + [s[k * n:(k + 1) * n] for k in range(T + 1)]))
    fresh = {s: c.decoder(T).correct_readout(s, "Z", err_prob=p) for s in strings}
    b = bench(c.decoder(T), correct)
    for s in strings:
        st["states"] += 1
        st["transitions"] += 1
        st["traces"] += 1
        if not ok(b.logical_error_rate({s: 5}, err_prob=p), int(fresh[s] != correct), 1):
            return f"{s!r}: wrong rate"
    few = strings if len(strings) <= 64 else strings[::len(strings) // 32]
    for s, t in permutations(few, 2):
        st["states"] += 1
        st["transitions"] += 1
        st["traces"] += 1
        bad = 2 * (fresh[s] != correct) + 3 * (fresh[t] != correct)
        if not ok(b.logical_error_rate({s: 2, t: 3}, err_prob=p), bad, 5):
            return f"{{{s!r}: 2, {t!r}: 3}}: wrong rate"
    whole = {s: i + 1 for i, s in enumerate(strings)}
    bad = sum(k for s, k in whole.items() if fresh[s] != correct)
    if not ok(b.logical_error_rate(whole, err_prob=p), bad, sum(whole.values())):
        return "wrong rate for the dictionary of all strings"
    return None
