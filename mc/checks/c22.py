"""
C22: a sweep reports every requested rate once, sorted, with its own result.

Every ordering of small rate lists and every bounded history of sweeps (with/without saving, with/without degeneracy
weighting, other shots, a second benchmark) is executed on the real benchmark with the real simulator.  The noise
model of a rate flips a bit pattern that is unique to the rate, so the result string identifies the noise model that
was used; the decoder and the counting are observed, too.
"""
import os
from itertools import permutations, product

import numpy as np
from qtcodes import TopologicalBenchmark

from .. import hist
from ..bench import Decoder, circuit, load, noise_func, points, scratch
from ..codes import Code, data_of

LEVEL = "model_checking"
RULE = ("every ordered list of distinct rates up to the bound x container type x degeneracy weighting x saving x every "
        "assignment of failing rates; every word of sweeps up to the bound on one benchmark, and on two sharing a "
        "directory; states = sweeps, transitions = simulated rates, traces = reported points compared")
ASSUMPTIONS = ["a rate requested twice in one list is outside the statement"]

RATES = [0.16, 0.05, 0.1, 0.001, 0.4]
NEAR = [0.1, 0.1 + 1e-9, 0.3]
EDGE = [0.0, 1.0, 0.5]
DEFAULT = [0.04, 0.07, 0.10, 0.13, 0.16]


def cases(tier):
    th = tier == "thorough"
    for pool in (RATES[:3], NEAR, EDGE):
        for n in (0, 1, 2, 3):
            for order in permutations(pool, n):
                for deg in (True, False):
                    for save in (True, False):
                        fails = list(product((0, 1), repeat=n))
                        for f in fails if pool is RATES[:3] or th else (fails[len(fails) // 2], fails[-1]):
                            yield {"one": list(order), "deg": deg, "save": save, "fail": list(f)}
    for order in permutations(RATES, 4) if not th else permutations(RATES, 5):
        yield {"one": list(order), "deg": True, "save": True, "fail": [0, 1, 1, 0, 1][:len(order)]}
    for n in range(5, 13):
        rates = [round(0.03 * i + 0.01, 2) for i in range(n)]
        orders = [rates, rates[::-1], rates[n // 2:] + rates[:n // 2], rates[::2] + rates[1::2],
                  rates[1::2][::-1] + rates[::2], sorted(rates, key=lambda p: int(p * 100) % 7)]
        for i, order in enumerate(orders):
            for deg in (True, False):
                yield {"one": order, "deg": deg, "save": (i + n) % 2 == 0, "fail": [(j * j + i) % 3 % 2 for j in range(n)]}
    for n in (16, 17, 31, 33, 64):
        rates = [round(0.007 * i + 0.001, 3) for i in range(n)]
        for i, order in enumerate((rates, rates[::-1], rates[n // 3:] + rates[:n // 3], rates[::2] + rates[1::2])):
            yield {"one": order, "deg": True, "save": i % 2 == 0, "fail": [(j * j + i) % 3 % 2 for j in range(n)]}
    for kind in ("tuple", "array", "none"):
        for save in (True, False):
            yield {"one": RATES[:4] if kind != "none" else None, "deg": True, "save": save, "fail": [1, 0, 0, 1, 0],
                   "kind": kind}
    for order in permutations(RATES[:2]):  # every argument but the rates left out: saved, weighted, 2048 shots
        yield {"one": list(order), "deg": True, "save": True, "fail": [1, 0], "kind": "defaults"}
    letters = ["a", "b", "c", "A", "B", "n", "o", "1", "2", "D", "F", "N"]
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for w in product(letters, repeat=n):
            yield {"word": list(w)}
    for k in ("RepB", "XXZZ", "XZZX"):
        for deg in (True, False):
            for order in permutations([0.02, 0.15, 0.08]):
                yield {"real": k, "order": list(order), "deg": deg}


class Watch:
    """A benchmark whose simulator runs, decoder calls and rate computations are recorded."""

    def __init__(self, rates, fails=None, d=(3, 1), T=1, correct=0):
        self.code = {p: i + 1 for i, p in enumerate(rates)}
        self.fail = dict(zip(rates, fails)) if fails is not None else {p: i % 2 for i, p in enumerate(rates)}
        self.bad = {self.code[p] for p in rates if self.fail[p]}
        self.dec = Decoder(lambda c: (c in self.bad) ^ correct, d, T)
        self.noise_calls = []
        self.bench = TopologicalBenchmark(decoder=self.dec, circ=circuit(),
                                          noise_model_func=noise_func(lambda p: self.code[p], self.noise_calls),
                                          correct_logical_value=correct)
        self.seen = []
        inner = self.bench.logical_error_rate

        def rate(readout_strings, err_prob=None):
            v = inner(readout_strings, err_prob=err_prob)
            self.seen.append((dict(readout_strings), err_prob, v))
            # a value that identifies the result it was computed from
            u = v + self.unique(readout_strings)
            return u

        self.bench.logical_error_rate = rate

    def toggle(self):
        self.bad ^= set(self.code.values())
        self.fail = {p: 1 - f for p, f in self.fail.items()}

    def unique(self, strings):
        c = int(max(strings, key=strings.get).replace(" ", ""), 2)
        return c / 1024.0

    def expect(self, p):
        v = float(self.fail[p])
        return v + self.code[p] / 1024.0 if self.seen else v

    def check(self, rates, deg, shots, st):
        """After a sweep over `rates`: the reported data and what was asked of simulator and decoder."""
        b = self.bench
        pr = [float(x) for x in b.data["physical_error_rates"]]
        lr = [float(x) for x in b.data["logical_error_rates"]]
        if pr != sorted(float(p) for p in rates):
            return f"reported rates {pr} for the request {list(rates)}"
        want = [self.expect(p) for p in sorted(rates)]
        st["traces"] += len(pr)
        if len(lr) != len(want) or any(abs(x - y) > 1e-12 for x, y in zip(lr, want)):
            return f"rates {pr} are reported with {lr} instead of {want}"
        for code, basis, p in self.dec.calls:
            rate = [r for r, c in self.code.items() if c == code]
            if not rate:
                return f"the decoder was given a result no noise model produces: {code}"
            if basis != "Z":
                return f"decoded in basis {basis}"
            if (p is None) == deg or (deg and float(p) != float(rate[0])):
                return f"the result of rate {rate[0]} was decoded with err_prob={p} (deg_weight={deg})"
        done = sorted({c for c, _, _ in self.dec.calls})
        if done != sorted(self.code[p] for p in rates):
            return f"results of {done} were decoded for {list(rates)}"
        if len(self.seen) and any(sum(c.values()) != shots for c, _, _ in self.seen):
            return f"results with {[sum(c.values()) for c, _, _ in self.seen]} instead of {shots} shots were used"
        self.dec.calls.clear()
        self.seen.clear()
        self.noise_calls.clear()
        return None


def files(saved):
    """The directory holds exactly the saved points, per result file."""
    have = sorted(os.listdir("."))
    if have != sorted(saved):
        return f"files {have} instead of {sorted(saved)}"
    for name, want in saved.items():
        got = points(name)
        if [p for p, _ in got] != sorted(p for p, _ in want):
            return f"{name} holds rates {[p for p, _ in got]}, saved were {sorted(want)}"
        if sorted(got) != sorted(want):
            return f"{name} holds {got}, saved were {sorted(want)}"
    return None


def run_case(spec, st):
    with scratch():
        if "word" in spec:
            return histories(spec["word"], st)
        if "real" in spec:
            return real(spec, st)
        return one(spec, st)


def one(spec, st):
    rates = spec["one"]
    kind = spec.get("kind")
    req = DEFAULT if kind == "none" else rates
    w = Watch(req, spec["fail"])
    st["states"] += 1
    st["transitions"] += len(req)
    shots = 8
    if kind == "none":
        w.bench.sweep(save_data=spec["save"], shots=8, deg_weight=spec["deg"])
    elif kind == "defaults":
        shots = 2048
        w.bench.sweep(list(rates))
    else:
        arg = {"tuple": tuple, "array": np.array, None: list}[kind](rates)
        before = list(arg)
        w.bench.sweep(arg, save_data=spec["save"], shots=8, deg_weight=spec["deg"])
        if list(arg) != before:
            return f"the caller's list was changed to {list(arg)}"
    want = {}
    exp = [(float(p), w.expect(p)) for p in req]
    e = w.check(req, spec["deg"], shots, st)
    if e:
        return e
    if spec["save"] and req:
        want[w.bench.filename] = exp
    return files(want)


SWEEPS = {  # letter -> (rates, save, deg, shots)
    "a": ([0.1, 0.05], True, True, 8), "b": ([0.05, 0.2, 0.01], True, False, 4), "c": ([0.3], True, True, 8),
    "A": ([0.1, 0.05], False, True, 8), "B": ([0.2, 0.01], False, False, 4), "n": ([], True, True, 8),
    "D": (DEFAULT, False, True, 8),
}
ALL = [0.1, 0.05, 0.2, 0.01, 0.3, 0.04, 0.07, 0.13, 0.16]


def histories(word, st):
    w = Watch(ALL, d=(3, 1), T=1)
    o = Watch(ALL, [0, 0, 1, 1, 1, 0, 1, 1, 0], d=(5, 1), T=2)
    saved = {}
    for k, x in enumerate(word):
        who = w
        if x in "12":
            e = one_rate(w, x == "1", saved, st)
            if e:
                return f"after {word[:k + 1]}: {e}"
            continue
        rates, save, deg, shots = SWEEPS.get(x, ([0.2, 0.05], True, True, 8))
        if x == "o":
            who = o
        if x == "F":  # from now on every rate has another result
            w.toggle()
            continue
        if x == "N":  # a new benchmark of the same size in the same directory
            w = Watch(ALL, d=(3, 1), T=1)
            continue
        st["states"] += 1
        st["transitions"] += len(rates)
        if x == "D":  # the default rates
            who.bench.sweep(save_data=save, shots=shots, deg_weight=deg)
        else:
            who.bench.sweep(list(rates), save_data=save, shots=shots, deg_weight=deg)
        if save and rates:
            saved.setdefault(who.bench.filename, []).extend((p, who.expect(p)) for p in rates)
        e = who.check(rates, deg, shots, st) or files(saved)
        if e:
            return f"after {word[:k + 1]}: {e}"
    if w.bench.filename == o.bench.filename:
        return "benchmarks of different size and rounds share a file name"
    return None


def one_rate(w, save, saved, st):
    """A single rate outside a sweep: its value is returned, the swept data stay, saving is optional."""
    before = {k: list(map(float, v)) for k, v in w.bench.data.items()}
    st["states"] += 1
    st["transitions"] += 1
    st["traces"] += 1
    got = w.bench.single(0.2, save_data=save, shots=8)
    if abs(float(got) - w.expect(0.2)) > 1e-12:
        return f"single(0.2) returned {got} instead of {w.expect(0.2)}"
    if save:
        saved.setdefault(w.bench.filename, []).append((0.2, w.expect(0.2)))
    if {c for c, _, _ in w.dec.calls} != {w.code[0.2]} or any(p != 0.2 for _, _, p in w.dec.calls):
        return f"single(0.2) asked the decoder {w.dec.calls}"
    w.dec.calls.clear()
    w.seen.clear()
    if {k: list(map(float, v)) for k, v in w.bench.data.items()} != before:
        return "single() changed the swept data"
    return files(saved)


def real(spec, st):
    """All parts real: which data qubits fail depends on the rate; two bit flips on a line defeat d=3."""
    from qiskit_aer.noise import NoiseModel, pauli_error

    kind = spec["real"]
    c = Code("RepB", 3, 1) if kind == "RepB" else Code(kind, 3, 3)
    q = c.qubit()
    for op in ("rz", "s", "idd", "s", "mz"):
        hist.apply(q, op)
    data = data_of(q)
    column = [i for i in range(c.n) if i % c.dw == 0]  # a logical operator of the errors Z readout sees
    bad = {0.02: 0, 0.15: 3, 0.08: 1}

    def noise(p):
        nm = NoiseModel()
        for i in column[:bad[p]]:
            nm.add_quantum_error(pauli_error([(c.physical(True, False, i).upper(), 1.0)]), "id", [data[i]])
        return nm

    dec = c.decoder(1)
    b = TopologicalBenchmark(decoder=dec, circ=q.circ, noise_model_func=noise)
    st["states"] += 1
    st["transitions"] += 3
    b.sweep(list(spec["order"]), save_data=True, shots=16, deg_weight=spec["deg"])
    pr, lr = list(map(float, b.data["physical_error_rates"])), list(map(float, b.data["logical_error_rates"]))
    st["traces"] += 3
    if pr != [0.02, 0.08, 0.15] or lr != [0.0, 0.0, 1.0]:
        return f"{kind}: rates {pr} reported with {lr} instead of [0, 0, 1]"
    return files({b.filename: list(zip(pr, lr))})
