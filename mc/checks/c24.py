"""C24: sweep_mp under every schedule of its workers, and free-running with the real process pool."""
import itertools
import multiprocessing
import os
import signal
import time
import traceback

import numpy as np

import qtcodes.tools.benchmarking as bm
from qtcodes import TopologicalBenchmark

from mc import bench, faultfs as ff, sched
from mc.codes import Code

LEVEL = "model_checking"
RULE = ("sweep_mp runs with a process pool whose real worker processes are stepped by a controller; all orders of "
        "taking tasks, handing in results and going on in the main process are enumerated for every listed rate "
        "list, result pattern and earlier file, and - if two processes touch the result file - all interleavings of "
        "their file operations up to a preemption bound; each schedule's reported and saved data are compared with "
        "evaluating the rates one by one. The same sweeps also run on the unmodified pool")
ASSUMPTIONS = [
    "workers interact only through the pool and through files in the working directory",
    "the controlled pool hands tasks out in submission order, as multiprocessing.Pool does; the free-running cases "
    "tie it to the real pool",
    "file operations interleave with at most 2 preemptions, and only matter if two processes do any",
]
CASE_TIMEOUT = {"quick": 600, "thorough": 7000}
CHUNK = 1
BITS = 6
OLD = [(0.5, 0.25), (0.15, 0.125)]


class Noise:
    """Rate -> noise model flipping exactly the bits of a code (picklable)."""

    def __init__(self, codes):
        self.codes = codes

    def __call__(self, p):
        from qiskit_aer.noise import NoiseModel, pauli_error

        code = self.codes[float(p)]
        nm = NoiseModel()
        for q in range(BITS):
            if code >> q & 1:
                nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [q])
        return nm


class Decoder:
    """Fails exactly on the readouts of the rates in `fails`, and on those only if asked with their own rate."""

    def __init__(self, codes, fails):
        self.params = {"d": (3, 1), "T": 1}
        self.codes, self.fails = codes, fails

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        code = int(syndromes.replace(" ", ""), 2)
        mine = [p for p, c in self.codes.items() if c == code]
        if err_prob is None or mine != [float(err_prob)]:
            raise AssertionError(f"readout {syndromes} decoded with error probability {err_prob}")
        return 1 if mine[0] in self.fails else 0


def make(rates, fails):
    codes = {float(p): i + 1 for i, p in enumerate(rates)}
    return TopologicalBenchmark(Decoder(codes, {float(p) for p in fails}), bench.circuit(BITS), Noise(codes), 0)


def sweep(rates, fails, given, save, earlier):
    def program():
        b = make(rates, fails)
        if earlier:  # leftovers of an earlier sweep of the same object
            b.data["physical_error_rates"] = [0.9]
            b.data["logical_error_rates"] = [0.9]
        b.sweep_mp(given, save_data=save, shots=3)
        return b.filename, {k: [float(x) for x in v] for k, v in b.data.items()}

    return program


def setup(old):
    def f():
        d = ff.materialise({})
        if old:
            b = make([0.1], [])
            cwd = os.getcwd()
            os.chdir(d)
            try:
                for p in old:
                    b.append_data(*p)
            finally:
                os.chdir(cwd)
        return d

    return f


def judge(rates, fails, save, old):
    want = sorted((float(p), 1.0 if p in fails else 0.0) for p in rates)

    def f(outcome, d):
        if outcome[0] != "ok":
            return f"sweep_mp({list(rates)}) {outcome[0]}: {outcome[1]}"
        fname, data = outcome[1]
        got = list(zip(data["physical_error_rates"], data["logical_error_rates"]))
        if got != want or len(data["physical_error_rates"]) != len(data["logical_error_rates"]):
            return f"sweep_mp({list(rates)}) reports {data}, one by one: {want}"
        files = sorted(os.listdir(d))
        saved = sorted(want + list(old)) if save else sorted(old)
        if not saved:
            return f"files {files} although nothing was to be saved" if files else None
        if files != [fname]:
            return f"files {files}, expected {[fname]}"
        pts = bench.points(os.path.join(d, fname))
        if sorted(pts) != saved or [p for p, _ in pts] != [p for p, _ in saved]:
            return f"saved points {pts}, expected {saved}"
        return None

    return f


DEFAULT = [0.04, 0.07, 0.10, 0.13, 0.16]


def cases(tier):
    deep = tier == "thorough"
    lists = [[0.2], [0.2, 0.1], [0.1, 0.2], [0.3, 0.1, 0.2]] + ([[0.1, 0.4, 0.2, 0.3]] if deep else [])
    for rates in lists:
        # all but one of the one-hot patterns tell every two assignments of results to rates apart
        for fail in [[p] for p in rates[:max(1, len(rates) - 1)]] + ([rates[:-1]] if deep else []):
            for save, old in ((True, 2), (False, 0), (True, 0), (False, 2)):
                if len(rates) == 3 and not deep and not save and (old or fail != rates[:1]):
                    continue
                yield {"kind": "schedules", "rates": rates, "fails": fail, "save": save, "old": old,
                       "earlier": old == 2, "budget": 3000 if deep else 250}
    yield {"kind": "schedules", "rates": [], "fails": [], "save": True, "old": 2, "earlier": True,
           "budget": 250}
    free = [("list", [0.3, 0.1, 0.2]), ("tuple", [0.3, 0.1, 0.2]), ("array", [0.3, 0.1, 0.2]), ("default", DEFAULT),
            ("list", [0.5, 0.45, 0.4, 0.35, 0.3, 0.25, 0.2, 0.15]), ("list", [])]
    # more rates than workers, than rounds of the pool, than cores
    free += [("array", [round(0.5 - 0.01 * i, 2) for i in range(n)]) for n in ((9, 17, 33) + ((10, 16, 25, 49) if deep else ()))]
    for form, rates in free:
        for save in (True, False):
            for before in (False, True):
                yield {"kind": "free", "form": form, "rates": rates, "fails": rates[:1] + rates[2:3] + rates[-1:], "save": save,
                       "before": before}
    for first in ("mp", "seq", "other"):
        for save in itertools.product((True, False), repeat=2):
            for same in (True, False):
                yield {"kind": "again", "first": first, "save": list(save), "same": same}
    for code in (["RepB", 3, 1], ["RepP", 1, 3], ["XXZZ", 3, 3], ["XZZX", 3, 3]):
        for bad in (0, 1):
            yield {"kind": "real", "code": code, "bad": bad}


def in_process(program, d, limit):
    """Runs program in a forked process with the unmodified pool."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            signal.alarm(0)
            os.chdir(d)
            multiprocessing.current_process()._config["daemon"] = False
            out = ("ok", program())
        except BaseException as e:
            out = ("raised", "".join(traceback.format_exception(e))[-2000:])
        try:
            os.write(w, repr(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    end = time.time() + limit
    done = False
    while time.time() < end and not done:
        done = os.waitpid(pid, os.WNOHANG)[0] != 0
        if not done:
            time.sleep(0.02)
    if not done:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        return ("hangs", f"no end within {limit} s")
    with os.fdopen(r) as f:
        text = f.read()
    return eval(text) if text else ("died", "")


def run_case(spec, st):
    if not ff.available():
        raise AssertionError("the fault shim is not loaded (run through ./check)")
    if spec["kind"] == "real":
        return run_real(spec, st)
    if spec["kind"] == "again":
        return run_again(spec, st)
    rates, fails, save = spec["rates"], spec["fails"], spec["save"]
    if spec["kind"] == "schedules":
        old = OLD[:spec["old"]]
        before = st["schedules"]
        m = sched.explore(sweep(rates, fails, list(rates), save, spec["earlier"]), [bm], setup(old),
                          judge(rates, fails, save, old), st, budget=spec["budget"])
        st["states"] += st["transitions"]
        st["traces"] += st["schedules"] - before
        return m
    given = {"list": list, "tuple": tuple, "array": np.array, "default": lambda _: None}[spec["form"]](rates)
    inner = sweep(rates, fails, given, save, False)

    def program():
        if spec["before"]:
            b = make([0.1, 0.2], [0.1])
            b.sweep([0.2, 0.1], save_data=False, shots=3)
            if list(map(float, b.data["logical_error_rates"])) != [1.0, 0.0]:
                raise AssertionError(f"sequential sweep reports {b.data}")
        return inner()

    d = ff.materialise({})
    try:
        out = in_process(program, d, 120)
        st["traces"] += 1
        st["states"] += 1
        st["free_runs"] += 1
        m = judge(rates, fails, save, [])(out, d)
        return m and f"unmodified pool: {m}"
    finally:
        ff.remove(d)


def run_again(spec, st):
    """A second sweep in the same directory, with another circuit's worth of results for the same rates."""
    one, two = [0.3, 0.1, 0.2], [0.2, 0.4, 0.3]
    fails = [[0.3], [0.2, 0.4]]  # 0.3 and 0.2 change
    s1, s2 = spec["save"]

    def program():
        b = make([0.1, 0.2, 0.3, 0.4], fails[0])
        if spec["first"] == "other":  # another benchmark of the same size
            make([0.1, 0.2, 0.3, 0.4], fails[0]).sweep_mp(list(one), save_data=s1, shots=3)
        elif spec["first"] == "mp":
            b.sweep_mp(list(one), save_data=s1, shots=3)
        else:
            b.sweep(list(one), save_data=s1, shots=3)
        if spec["same"]:
            b.decoder.fails = set(fails[1])
        else:
            b = make([0.1, 0.2, 0.3, 0.4], fails[1])
        b.sweep_mp(list(two), save_data=s2, shots=3)
        return b.filename, {k: [float(x) for x in v] for k, v in b.data.items()}

    old = [(p, 1.0 if p in fails[0] else 0.0) for p in one] if s1 else []
    d = ff.materialise({})
    try:
        out = in_process(program, d, 120)
        st["traces"] += 1
        st["states"] += 2
        st["free_runs"] += 1
        m = judge(two, fails[1], s2, old)(out, d)
        return m and f"second sweep after {spec['first']}, saving {spec['save']}: {m}"
    finally:
        ff.remove(d)


class RealNoise:
    """X on the first `bad` data qubits at rate 0.2, on one at 0.1, on none at 0.05."""

    def __init__(self, qubits):
        self.qubits = qubits

    def __call__(self, p):
        from qiskit_aer.noise import NoiseModel, pauli_error

        nm = NoiseModel()
        for q in self.qubits[float(p)]:
            nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [q])
        return nm


def run_real(spec, st):
    code = Code.of(spec["code"])
    d = ff.materialise({})

    def build():
        q = code.qubit()
        q.reset_z()
        q.stabilize()
        q.id_data()
        q.stabilize()
        q.readout_z()
        data = [q.circ.qubits.index(x) for x in q.lattice.qregisters["data"]]
        noise = RealNoise({0.05: [], 0.1: data[:1], 0.2: data[:2] if spec["bad"] else data[-1:]})
        return TopologicalBenchmark(code.decoder(2), q.circ, noise, 0)

    def par():
        b = build()
        b.sweep_mp([0.2, 0.05, 0.1], save_data=True, shots=4)
        return b.filename, {k: [float(x) for x in v] for k, v in b.data.items()}

    def seq():
        b = build()
        b.sweep([0.2, 0.05, 0.1], save_data=False, shots=4)
        return b.filename, {k: [float(x) for x in v] for k, v in b.data.items()}

    try:
        a = in_process(seq, d, 120)
        b = in_process(par, d, 120)
        st["traces"] += 1
        st["states"] += 1
        st["free_runs"] += 1
        if a[0] != "ok" or b != a:
            return f"{code}: sequential {a}, parallel {b}"
        pts = bench.points(os.path.join(d, b[1][0]))
        want = list(zip(b[1][1]["physical_error_rates"], b[1][1]["logical_error_rates"]))
        if pts != want:
            return f"saved {pts}, reported {want}"
        return None
    finally:
        ff.remove(d)
