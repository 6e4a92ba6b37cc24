"""
C28: a copy is as good as the original.

Every bounded history of uses is executed on the real objects, copied at its end (deep copy, pickle, a copy of a copy),
and continued on the original and on the copy, in turns, with every pair of bounded continuations.  Each of them must
be what a fresh object with the same history is.
"""
import copy
import pickle
from itertools import product

import numpy as np
from qiskit import QuantumCircuit
from qtcodes import TopologicalAnalysis, TopologicalBenchmark, TopologicalCircuit, TopologicalRegister

from .. import hist, snap
from ..bench import circuit, scratch
from ..codes import Code

LEVEL = "model_checking"
RULE = ("every word of uses up to the bound x way of copying x every pair of continuations (one on the original, one on "
        "the copy, taking turns), for encoded qubits, encoded qubits sharing a circuit, registers and circuits, "
        "decoders with their tables and benchmarks; states = histories executed, transitions = uses, traces = "
        "comparisons with objects built afresh and given the same history")
ASSUMPTIONS = ["objects that share a circuit are copied together", "noise models are named functions (for pickling)"]

HOW = {"deepcopy": copy.deepcopy,
       "pickle": lambda x: pickle.loads(pickle.dumps(x)),
       "twice": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(x))))}
CODES = [("XXZZ", 1, 3), ("XXZZ", 3, 1), ("XZZX", 1, 3), ("XZZX", 3, 1), ("RepB", 3, 1), ("RepP", 1, 3), ("XXZZ", 3, 3),
         ("XZZX", 3, 3), ("XXZZ", 3, 5)]
ENC = ["rz", "rx", "x", "s", "id", "mz", "lx", "Mz"]
CIRC = {"rz0": lambda t: t.reset_z(0), "s0": lambda t: t.stabilize(0), "s1": lambda t: t.stabilize(1),
        "x1": lambda t: t.x(t.treg[1]), "cx": lambda t: t.cx(0, 1), "cxo": lambda t: t.cx(t.treg[1], t.treg[0]),
        "m0": lambda t: t.measure_z(0), "l1": lambda t: t.measure_lattice_x(1),
        "add": lambda t: t.treg.add_tqubit("more", "XZZX", {"d": (1, 3)}),
        "last": lambda t: t.stabilize(t.treg.n - 1), "creg": lambda t: t.add_creg(2, f"r{len(t.creg)}")}
DECS = [("XXZZ", 3, 3, 2), ("XXZZ", 3, 5, 1), ("RepB", 3, 1, 2), ("RepP", 1, 5, 1), ("XXZZ", 1, 3, 2)]


def cases(tier):
    th = tier == "thorough"
    for code in CODES:
        small = code[1] * code[2] <= 3
        for how in HOW:
            for pre in hist.sequences(ENC if small or th else ENC[::2], 2 if small and (th or how == "pickle") else 1):
                yield {"encoder": list(code), "how": how, "pre": list(pre), "n": 1}
            if small:
                yield {"encoder": list(code), "how": how, "pre": ["rz", "s"], "n": 2}
        yield {"pair": list(code)}
    for how in HOW:
        for pre in hist.sequences(sorted(CIRC), 2 if th or how == "deepcopy" else 1):
            yield {"circuit": True, "how": how, "pre": list(pre)}
    for d in DECS:
        for how in HOW:
            for pre in hist.sequences(sorted(USES), 2):
                yield {"decoder": list(d), "how": how, "pre": list(pre)}
    for how in HOW:
        for pre in ("", "a", "b", "ab", "ba", "m", "bm"):
            yield {"bench": True, "how": how, "pre": pre}


_FRESH = {}


def together(key, make, do, pre, u, v, how, look, st):
    """The original goes on with u, the copy with v, in turns; compared with fresh objects."""
    a = make()
    for op in pre:
        do(a, op)
    b = HOW[how](a)
    for i in range(max(len(u), len(v))):
        if i < len(v):
            do(b, v[i])
        if i < len(u):
            do(a, u[i])
    st["states"] += 1
    st["transitions"] += len(pre) + len(u) + len(v)
    for what, got, rest in (("original", a, u), ("copy", b, v)):
        word = tuple(pre) + tuple(rest)
        if (key, word) not in _FRESH:
            ref = make()
            for op in word:
                do(ref, op)
            _FRESH[key, word] = look(ref)
        st["traces"] += 1
        x, y = look(got), _FRESH[key, word]
        if x != y:
            return (f"{pre}, {how}, then {u} on the original and {v} on the copy: the {what} differs from a fresh "
                    f"object with the same history: " + "; ".join(f"{p} != {q}" for p, q in zip(x, y) if p != q)[:700])
    return None


def strings(c, T):
    n = c.n
    full = [["0" * n] + ["0" * (n - 1)] * T, ["1" + "0" * (n - 1)] + ["0" * (n - 2) + "1"] + ["0" * (n - 1)] * (T - 1),
            ["0", "1" + "0" * (n - 2)] + ["0" * (n - 2) + "1"] * (T - 1) + ["0" * (n - 1)]]
    return [" ".join(f) for f in full]


def look_encoder(c):
    def look(q):
        out = [snap.circuit(q.circ), str(q.circ.qregs), str(q.circ.cregs)]
        for s in strings(c, 2):
            for b in "XZ":
                v, hits = q.parse_readout(s, b)
                out.append((v, sorted((k, sorted(map(tuple, h))) for k, h in hits.items())))
        return out
    return look


def run_encoder(spec, st):
    c = Code.of(spec["encoder"])
    for u in hist.sequences(ENC, spec["n"]):
        for v in hist.sequences(ENC, spec["n"]):
            if spec["n"] == 2 and (len(u) + len(v) != 4 or ENC.index(u[0]) > ENC.index(v[0])):
                continue
            m = together(repr(c), c.qubit, hist.apply, spec["pre"], u, v, spec["how"], look_encoder(c), st)
            if m:
                return f"{c}: {m}"
    return None


def run_pair(spec, st):
    """Two encoded qubits on one circuit, copied together."""
    c = Code.of(spec["pair"])

    def make():
        circ = QuantumCircuit()
        return [c.qubit(circ=circ, name="a"), Code("XXZZ", 1, 3).qubit(circ=circ, name="b")]

    def do(qs, op):
        hist.apply(qs[op[1]], op[0])

    def look(qs):
        return [qs[0].circ is qs[1].circ] + look_encoder(c)(qs[0]) + look_encoder(Code("XXZZ", 1, 3))(qs[1])

    uses = [(op, i) for op in ENC[::2] for i in (0, 1)]
    for how in HOW:
        for pre in ((), (("rz", 0),), (("s", 1), ("s", 0))):
            for u, v in product(uses, uses):
                m = together(f"two {c}", make, do, pre, (u,), (v, ("s", 0)), how, look, st)
                if m:
                    return f"{c} and a second encoded qubit: {m}"
    return None


def run_circuit(spec, st):
    def make():
        return TopologicalCircuit(TopologicalRegister(ctypes=["XXZZ", "Repetition"], params=[{"d": (1, 3)}, {"d": 3}]))

    def look(t):
        return [t.circ is t.treg.circ, all(q.circ is t.circ for sub in t.treg.tqubits.values() for q in sub.values()),
                t.treg.n, sorted(t.creg), sorted(t.qreg), snap.circuit(t.circ), str(t.circ.qregs), str(t.circ.cregs)]

    for u, v in product(sorted(CIRC), repeat=2):
        m = together("circuit", make, lambda t, op: CIRC[op](t), spec["pre"], (u,), (v,), spec["how"], look, st)
        if m:
            return m
    return None


def table(k):
    return {"0 0": 3 + k, "1 1": 1, f"{k % 2} 1": 5}


USES = {
    "dec": lambda d, c, T: [d.correct_readout(s, b) for s in strings(c, T) for b in d.S],
    "deg": lambda d, c, T: [d.correct_readout(s, b, err_prob=0.05) for s in strings(c, T) for b in d.S],
    "t0": lambda d, c, T: [d.set_look_up_table(b, i, table(i)) for b in "XZ" for i in (0, 1)],
    "t1": lambda d, c, T: d.set_look_up_table("Z", 0, table(4)),
    "clr": lambda d, c, T: d.reset_look_up_table(),
    "enc": lambda d, c, T: d.encoder.stabilize(),
}


def run_decoder(spec, st):
    kind, dh, dw, T = spec["decoder"]
    c = Code(kind, dh, dw)

    def look(d):
        out = [tuple(map(int, d.params["d"])), int(d.params["T"])]
        for b in sorted(d.S):
            g = d.S[b]
            out.append((b, sorted(map(str, g.nodes())),
                        sorted(tuple(sorted((str(g[i]), str(g[j])))) for i, j in g.edge_list())))
            for s in strings(c, T):
                out.append((b, s, d.correct_readout(s, b), d.correct_readout(s, b, err_prob=0.02),
                            str(d.parse_readout(s, b))))
        for b in "XZ":
            for s in ("0 0", "1 1", "0 1"):
                try:
                    out.append((b, s, d.correct_readout_look_up_table(s, b)))
                except ZeroDivisionError:
                    out.append((b, s, "unknown"))
        out.append(snap.circuit(d.encoder.circ))
        return out

    for u, v in product(sorted(USES), repeat=2):
        m = together(f"decoder {c} {T}", lambda: c.decoder(T), lambda d, op: USES[op](d, c, T), spec["pre"], (u,), (v,), spec["how"], look, st)
        if m:
            return f"decoder of {c}, T={T}: {m}"
    return None


def noise(p):
    """Flips the measured bits of the number p * 100."""
    from qiskit_aer.noise import NoiseModel, pauli_error

    nm = NoiseModel()
    for q in range(7):
        if int(round(p * 100)) >> q & 1:
            nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [q])
    return nm


class Reader:
    """A decoder that fails for results of every other noise model."""

    def __init__(self):
        self.params = {"d": (3, 1), "T": 1}

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        return int(syndromes.replace(" ", ""), 2) % 2


SWEEPS = {"a": lambda b: b.sweep([0.03, 0.02], save_data=False, shots=4), "b": lambda b: b.sweep([0.05], shots=4),
          "m": lambda b: b.append_data(0.25, 0.5), "r": lambda b: b.logical_error_rate({"0000011": 1, "0": 3})}


def run_bench(spec, st):
    def make():
        with_file = TopologicalBenchmark(decoder=Reader(), circ=circuit(), noise_model_func=noise,
                                         correct_logical_value=0)
        return with_file

    def data(x):
        return {k: [float(y) for y in v] for k, v in x.items()}

    def history(words):
        """[the objects after their words]: copies are made where asked."""
        with scratch():
            b = make()
            for w in spec["pre"]:
                SWEEPS[w](b)
            c = HOW[spec["how"]](b)
            u, v = words
            for w in v:
                SWEEPS[w](c)
            mine = data(b.data)
            for w in u:
                SWEEPS[w](b)
            out = [mine, data(b.data), data(c.data), b.filename == c.filename, snap.circuit(b.circ), snap.circuit(c.circ)]
            import os
            if os.path.exists(b.filename):
                an = TopologicalAnalysis(b.filename)
                an.load_data()
                other = HOW[spec["how"]](an)
                out.append((data(an.data), tuple(map(int, an.params["d"])), int(an.params["T"])))
                if (data(other.data), tuple(map(int, other.params["d"])), int(other.params["T"])) != out[-1]:
                    out.append("the copy of the loaded analysis differs")
            return out

    def alone(word):
        with scratch():
            b = make()
            for w in word:
                SWEEPS[w](b)
            return data(b.data)

    for u, v in product(["", "a", "b", "r"], repeat=2):
        st["states"] += 1
        st["transitions"] += len(spec["pre"]) + len(u) + len(v)
        st["traces"] += 3
        got = history((u, v))
        want = [alone(spec["pre"]), alone(spec["pre"] + u), alone(spec["pre"] + v), True,
                snap.circuit(circuit()), snap.circuit(circuit())]
        if got[:6] != want:
            return f"benchmark {spec['pre']}, {spec['how']}, then {u!r} and {v!r} on the copy: {got[:4]} != {want[:4]}"
        saved = [w for w in spec["pre"] + v + u if w in "bm"]
        pts = sorted((0.05, 1.0) if w == "b" else (0.25, 0.5) for w in saved)
        if saved:
            if got[-1] == "the copy of the loaded analysis differs":
                return got[-1]
            d = got[6][0]
            if sorted(zip(d["physical_error_rates"], d["logical_error_rates"])) != pts or got[6][1:] != ((3, 1), 1):
                return f"benchmark {spec['pre']}, {spec['how']}, {u!r}, {v!r}: the file holds {got[6]}, saved were {pts}"
    return None


def run_case(spec, st):
    for k, f in (("encoder", run_encoder), ("pair", run_pair), ("circuit", run_circuit), ("decoder", run_decoder),
                 ("bench", run_bench)):
        if k in spec:
            return f(spec, st)
