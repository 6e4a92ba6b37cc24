"""C27: independent uses in several threads do not disturb each other, under every bounded thread schedule."""
import copy
from itertools import combinations_with_replacement

from qiskit import QuantumCircuit
from qtcodes import TopologicalAnalysis, TopologicalBenchmark, TopologicalCircuit, TopologicalRegister

from .. import bench, snap, threads
from ..codes import Code
from .c18 import matching, norm, strings

LEVEL = "model_checking"
RULE = ("two jobs run in two real threads that are stepped by a controller; for every pair of jobs of the menu all "
        "schedules with at most the case's number of preemptions are enumerated (preemption points: every operation "
        "of the library's own code that can touch something another thread sees, or only the first one of every line or every function, as the case says), "
        "each starting from fresh objects and the library's module state as imported; both answers, and the answers "
        "of the same jobs afterwards, are compared with each job alone on objects of its own; states = schedules, "
        "transitions = preemption points passed, traces = answers compared")
ASSUMPTIONS = [
    "a thread loses its turn only inside the library's own code: numpy, retworkx and qiskit calls count as one step",
    "objects that are shared are decoders, encoders and benchmarks that are only asked; a circuit is built by one "
    "thread at a time and a result file saved by one thread at a time",
]
CASE_TIMEOUT = {"quick": 400, "thorough": 7000}
CHUNK = 1

DEC = ["s3", "s5", "p1", "p3", "h5", "pa4", "pa6", "lut", "set", "bm", "eg3", "oq", "mk"]
FEW = ["s3", "p5", "h3", "pa4", "bm"]
BUILD = [["XXZZ", 3, 3], ["XXZZ", 1, 3], ["XZZX", 3, 3], ["XZZX", 3, 1], ["RepB", 3, 1], ["RepP", 1, 3]]


def cases(tier):
    th = tier == "thorough"
    rep, xxzz = ["RepB", 3, 1], ["XXZZ", 3, 3]
    plans = [
        (rep, 1, "Z", DEC, 1, "line"), (rep, 1, "Z", FEW, 1, "op"), (xxzz, 1, "X", ["s3", "p5", "h3", "pa4", "eg3", "oq"], 1, "line"),
        (["RepP", 1, 5], 2, "X", FEW[:4], 1, "line"), (["XXZZ", 3, 5], 1, "Z", ["p5"], 1, "line"), (["XXZZ", 3, 5], 1, "X", ["w", "ow"], 1, "line"),
        (rep, 1, "Z", FEW, 2, "call"), (["XXZZ", 1, 3], 1, "X", FEW[:4], 2, "call"),
    ]
    if th:
        plans += [
            (rep, 1, "Z", DEC, 1, "op"), (xxzz, 1, "Z", DEC, 1, "op"), (xxzz, 2, "X", DEC, 1, "op"),
            (["XXZZ", 3, 5], 1, "X", DEC, 1, "line"), (rep, 1, "Z", DEC, 2, "line"),
            (["XXZZ", 1, 3], 1, "X", ["s3", "pa4"], 2, "line"), (xxzz, 1, "Z", FEW, 2, "line"),
        ]
    built = [["q", c] for c in BUILD] + [["dec", BUILD[1], 2], ["dec", BUILD[4], 1], ["dec", BUILD[5], 2],
                                        ["reg", "cx"], ["reg", "late"], ["circ", 0]]
    for (i, a), (j, b) in combinations_with_replacement(enumerate(built), 2):
        if th or i == j < 9 or (i, j) in ((0, 1), (0, 2), (4, 5), (0, 6), (4, 7), (9, 10), (0, 11)):
            yield {"build": [a, b], "bound": 1, "grain": "op" if th else "line"}
    for c in BUILD:
        if c[0] != "XZZX":
            yield {"enc": c, "bound": 1, "grain": "op"}
    for a, b in [("sweep", "sweep"), ("single", "single"), ("sweep", "load"), ("append", "append"), ("append", "load"),
                 ("append", "rate"), ("rate", "rate")]:
        yield {"bench": [a, b], "bound": 1, "grain": "line" if "s" in (a[0], b[0]) and not th else "op"}
    for code, T, typ, menu, bound, grain in plans:
        for a, b in combinations_with_replacement(menu, 2):
            yield {"code": code, "T": T, "typ": typ, "jobs": [a, b], "bound": bound, "grain": grain}


# ---- jobs -----------------------------------------------------------------------------------------------------


def hits_of(x):
    return {k: sorted(tuple(map(float, n)) for n in v) for k, v in x.items()}


class DecoderJobs:
    def __init__(self, spec):
        self.c, self.T, self.typ = Code.of(spec["code"]), spec["T"], spec["typ"]
        self.strings = strings(self.c, self.T)
        self.first = None
        self.hits = {}

    def shared(self):
        if self.first is None:
            self.first = self.c.decoder(self.T)
            self.copies = True
            try:
                copy.deepcopy(self.first)
            except Exception:  # a decoder holding a lock, say
                self.copies = False
        return copy.deepcopy(self.first) if self.copies else self.c.decoder(self.T)

    def parsed(self, s):
        if s not in self.hits:
            v, h = self.c.decoder(self.T).parse_readout(s, self.typ)
            self.hits[s] = v, [tuple(x) for x in h[self.typ]]
        return self.hits[s]

    def job(self, k, w, dec, b):
        typ, T, c = self.typ, self.T, self.c
        name = w.rstrip("0123456789")
        s = self.strings[int(w[len(name):] or 0)]
        if name == "s":
            return lambda: dec.correct_readout(s, typ)
        if name == "p":
            return lambda: dec.correct_readout(s, typ, err_prob=0.05)
        if name == "h":
            v, h = self.parsed(s)
            mine = {typ: list(h)}
            return lambda: (dec.correct_readout(mine, typ, v, err_prob=0.3), hits_of(mine))
        if name == "pa":
            return lambda: norm(dec.parse_readout(s, typ))
        if name == "lut":
            dec.set_look_up_table(typ, 0, {self.strings[1]: 3, self.strings[2]: 1})
            dec.set_look_up_table(typ, 1, {self.strings[1]: 1, self.strings[2]: 5})
            return lambda: [dec.correct_readout_look_up_table(self.strings[i], typ) for i in (1, 2)]
        if name == "set":
            other = "X" if typ == "Z" else "Z"

            def fill():
                dec.set_look_up_table(other, 0, {self.strings[1]: 3, self.strings[2]: 1})
                dec.set_look_up_table(other, 1, {self.strings[1]: 1, self.strings[2]: 5})
                return [dec.correct_readout_look_up_table(self.strings[i], other) for i in (1, 2)]

            return fill
        if name == "bm":
            if typ == "Z":
                return lambda: b.logical_error_rate({self.strings[i]: i + k for i in (1, 3, 4)}, err_prob=0.1)
            return lambda: [dec.correct_readout(self.strings[i], typ, err_prob=0.1) for i in (1, 3, 4)]
        if name == "eg":
            mine = list(self.parsed(s)[1])
            return lambda: matching(dec, mine, typ)
        if name in ("w", "ow"):
            key = typ if name == "w" else "X" if typ == "Z" else "Z"
            nodes = [n for n in dec.S[key].nodes() if n[0] != -1][::3]
            return lambda: weights(dec, list(nodes), key)
        if name == "oq":
            other = "X" if typ == "Z" else "Z"
            if not c.has(other):
                return lambda: norm(dec.parse_readout(self.strings[5], typ))
            return lambda: dec.correct_readout(self.strings[3], other, err_prob=0.2)
        if name == "mk":
            return lambda: c.decoder(T).correct_readout(s, typ)
        raise KeyError(w)

    def fresh(self, names):
        dec = self.shared()
        b = TopologicalBenchmark(dec, QuantumCircuit(1))
        return [self.job(k, w, dec, b) for k, w in enumerate(names)]


def weights(dec, nodes, key):
    if not hasattr(dec, "_make_error_graph"):
        return None
    g = dec._make_error_graph(nodes, key, err_prob=0.05)
    return sorted((sorted((str(g[a]), str(g[b]))), round(float(w), 9)) for a, b, w in g.weighted_edge_list())


def graph(dec):
    return {k: (sorted(map(str, g.nodes())), sorted(sorted((str(g[a]), str(g[b]))) for a, b in g.edge_list()))
            for k, g in dec.S.items()}


def build_job(what):
    kind = what[0]
    if kind == "q":
        c = Code.of(what[1])

        def qubit():
            q = c.qubit(name="mine")
            q.reset_z(), q.stabilize(), q.x(), q.id(), q.stabilize()
            q.readout_z(), q.lattice_readout_x()
            s = strings(c, 2)
            return snap.circuit(q.circ), hits_of(q.parse_readout(s[3], "Z" if c.has("Z") else "X")[1])

        return qubit
    if kind == "dec":
        c, T = Code.of(what[1]), what[2]

        def decoder():
            d = c.decoder(T)
            typ = "Z" if c.has("Z") else "X"
            return graph(d), d.correct_readout(strings(c, T)[3], typ), str(sorted(d.params.items()))

        return decoder
    if kind == "reg":

        def register():
            r = TopologicalRegister(ctypes=["Repetition"], params=[{"d": 3}], name="r")
            if what[1] == "late":
                r.add_tqubits("more", ["XXZZ"], [{"d": (3, 1)}])
            else:
                r.add_tqubit("data", "Repetition", {"d": 3})
            t = TopologicalCircuit(r)
            t.x(r[0])
            t.stabilize(r[1])
            t.cx(r[0], r[1])
            t.measure_z(r[1])
            return snap.circuit(r.circ), r.n

        return register

    def circuit():
        r = TopologicalRegister(ctypes=["XXZZ"], params=[{"d": 3}], name="r")
        t = TopologicalCircuit(r)
        t.stabilize(r[0])
        t.x(r[0])
        t.measure_lattice_z(r[0])
        return snap.circuit(r.circ), r.n

    return circuit


def bench_job(kind, k, saved, common):
    """Job number k on a result file of its own; `rate`: benchmarks sharing one decoder."""
    d = (3 + 2 * k, 1)
    dec = bench.Decoder(lambda code: code & 1, d=d)
    own = TopologicalBenchmark(dec, bench.circuit(), bench.noise_func(lambda p: int(round(p * 10))))
    if kind == "sweep":
        def sweep():
            own.sweep([0.3, 0.2 + 0.1 * k], shots=2)
            return points(own), list(map(float, own.data["logical_error_rates"]))
        return sweep
    if kind == "single":
        return lambda: (own.single(0.3 + 0.1 * k, shots=2), points(own))
    if kind == "append":
        def append():
            own.append_data(0.3 + k, 0.1)
            own.append_data(0.2, 0.05 * k)
            return points(own)
        return append
    if kind == "load":
        def load():
            a = TopologicalAnalysis(saved)
            a.load_data()
            return {k: list(map(float, v)) for k, v in a.data.items()}, str(a.params)
        return load
    return lambda: common.logical_error_rate({"0001": 3 + k, "0010": 1, "0011": k})


def points(b):
    return bench.points(b.filename)


def bench_setup(names):
    import os

    for f in os.listdir("."):
        os.remove(f)
    common = TopologicalBenchmark(bench.Decoder(lambda code: code & 1), bench.circuit())
    old = TopologicalBenchmark(bench.Decoder(lambda code: 0, d=(9, 1)), bench.circuit())
    old.append_data(0.5, 0.25)
    return [bench_job(w, k, old.filename, common) for k, w in enumerate(names)]


def jobs_of(spec):
    """-> (maker of the two jobs on shared fresh objects, maker of a job alone)."""
    if "jobs" in spec:
        dj = DecoderJobs(spec)
        return lambda: dj.fresh(spec["jobs"])
    if "build" in spec:
        return lambda: [build_job(w) for w in spec["build"]]
    if "enc" in spec:
        c = Code.of(spec["enc"])
        typ = "Z" if c.has("Z") else "X"
        s = strings(c, 2)

        def make():
            q = c.qubit()
            q.stabilize(), q.stabilize(), q.readout_z()
            return [lambda: norm(q.parse_readout(s[3], typ)), lambda: norm(q.parse_readout(s[5], typ))]

        return make
    return lambda: bench_setup(spec["bench"])


def run_case(spec, st):
    with bench.scratch():
        return explore(spec, st)


def explore(spec, st):
    state = threads.snapshot()
    make = jobs_of(spec)
    alone, counts = [], [0, 0]
    for k in (0, 1):
        threads.reset(state)
        out, n, _ = threads.run([make()[k]], grain=spec["grain"])
        if out is None or out[0][0] != "ok":
            return f"job {k} alone: {out}"
        alone.append(out[0])
        counts[k] = n[0]
    pair = spec.get("jobs") or spec.get("build") or [0, 1]
    for seg in threads.schedules(counts, spec["bound"], same=pair[0] == pair[1] != "bm"):
        threads.reset(state)
        jobs = make()
        out, n, kept = threads.run(jobs, seg, spec["grain"])
        st["states"] += 1
        st["transitions"] += sum(n)
        st["traces"] += 4
        if not kept:
            st["schedules_given_up"] += 1
            if out is None:
                return f"schedule {seg}: the threads do not finish"
        if out != alone:
            k = 0 if out[0] != alone[0] else 1
            return f"schedule {seg}: job {k} gives {str(out[k])[:400]} instead of {str(alone[k])[:400]}"
        if "jobs" in spec or "enc" in spec:
            again = [("ok", j()) for j in jobs]
            if again != alone:
                return f"after schedule {seg} the jobs give {str(again)[:400]} instead of {str(alone)[:400]}"
    return None
