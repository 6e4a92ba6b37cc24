"""C23: every fault at every file operation of every save, in every bounded history of saves."""
import io
import itertools
import os

import numpy as np

from qtcodes import TopologicalBenchmark
from qtcodes.tools.benchmarking import TopologicalAnalysis, TopologicalBatchAnalysis

from mc import faultfs as ff

LEVEL = "fault_enumeration"
RULE = ("explicit-state search over directory states: start with every listed result file, run every listed sequence "
        "of sessions (one process each, 1-2 saves), and in every session inject every fault at every file operation "
        "it performs (crash before/after, torn write, EIO, ENOSPC from there on, interrupt; and the kernel's file "
        "size limit at every byte; two processes saving at once: every interleaving of their file operations with at "
        "most two preemptions, with and without one of them killed meanwhile; every word of saves by three benchmarks and "
        "another process, loads and new benchmarks up to the bound); afterwards load the file and the directory for analysis and compare with the "
        "saves that completed. A case is non-trivial when the fault hit and the session was cut short or raised")
ASSUMPTIONS = [
    "a crash is the death of the process: what the kernel has accepted stays (no power loss)",
    "looking up file metadata (stat) does not fail",
    "every session's process id differs from those of the sessions before",
    "saves of two processes that overlap in time: the points saved before and those of the save that ends last stay; "
    "the other save's own point may be lost (there is no lock)",
]
CASE_TIMEOUT = {"quick": 400, "thorough": 3000}
CHUNK = 1

KINDS = {  # decoder parameters as the real decoders hold them
    "a": {"d": (3, 3), "T": 1},
    "b": {"d": (5, 3), "T": 2},
    "c": {"d": (11, 1), "T": 3},
}
# values chosen so that order in the file, order of saving and pairing are all distinguishable
POINTS = [(0.07, 0.31), (0.04, 0.52), (0.1, 0.004), (0.01, 0.75), (0.07, 0.0), (0.055, 1.0)]


class Dec:
    def __init__(self, params):
        self.params = params


def bench(kind):
    return TopologicalBenchmark(Dec(dict(KINDS[kind])), None)


def session_of(saves):
    """saves: list of (kind, point number); one benchmark object per kind, used for the whole session."""

    def run(ack):
        b = {k: bench(k) for k in sorted({k for k, _ in saves})}
        for k, i in saves:
            ack(("start", k, i))
            try:
                b[k].append_data(*POINTS[i])
            except (OSError, KeyboardInterrupt) as e:
                ack(("failed", k, i, repr(e)))
            except Exception as e:  # e.g. a BadZipFile caused by an injected read error
                ack(("failed", k, i, repr(e)))
            else:
                ack(("done", k, i))

    return run


def name_of(kind):
    return bench(kind).filename


def check_dir(d, sure, maybe):
    """sure/maybe: {kind: tuple of point numbers}."""
    for kind in KINDS:
        must, may = sorted(sure.get(kind, ())), sorted(maybe.get(kind, ()))
        path = os.path.join(d, name_of(kind))
        if not os.path.exists(path):
            if must:
                return f"the file with the completed saves {must} of {KINDS[kind]} is gone"
            continue
        a = TopologicalAnalysis(path)
        try:
            a.load_data()
        except Exception as e:
            return f"the result file of {KINDS[kind]} cannot be loaded: {e!r} (completed saves: {must})"
        if tuple(a.params["d"]) != KINDS[kind]["d"] or a.params["T"] != KINDS[kind]["T"]:
            return f"loaded parameters {a.params}, saved {KINDS[kind]}"
        ps = [float(x) for x in a.data["physical_error_rates"]]
        ls = [float(x) for x in a.data["logical_error_rates"]]
        if len(ps) != len(ls) or ps != sorted(ps):
            return f"not sorted or not paired: {ps} {ls}"
        have = sorted(zip(ps, ls))
        allowed = [sorted(POINTS[i] for i in must + list(extra))
                   for n in range(len(may) + 1) for extra in itertools.combinations(may, n)]
        if have not in allowed:
            return (f"file of {KINDS[kind]} holds {have}; completed saves {[POINTS[i] for i in must]}, "
                    f"cut short {[POINTS[i] for i in may]}")
    try:
        b = TopologicalBatchAnalysis(d + "/")
    except Exception as e:
        return f"batch analysis fails: {e!r}; files {sorted(os.listdir(d))}"
    got = sorted(os.path.basename(x.filename) for x in b.analyses)
    want = sorted(name_of(k) for k in KINDS if os.path.exists(os.path.join(d, name_of(k))))
    if got != want:
        return f"batch analysis uses {got}, the result files are {want}"
    sizes = [x.params["d"][0] for x in b.analyses]
    if sizes != sorted(sizes):
        return f"batch analysis is not ordered by lattice size: {sizes}"
    for x in b.analyses:
        one = TopologicalAnalysis(x.filename)
        one.load_data()
        if one.params != x.params or any(list(one.data[k]) != list(x.data[k]) for k in one.data):
            return f"batch analysis of {x.filename} differs from loading it alone"
    return None


def start_files(init):
    """The directory after saving `init` without faults."""
    d = ff.materialise({})
    try:
        acks, end, _ = ff.in_child(d, session_of(init))
        if end != "done" or sum(a[0] == "done" for a in acks) != len(init):
            raise AssertionError(f"saving without any fault fails: {end} {acks}")
        return ff.read_dir(d)
    finally:
        ff.remove(d)


def loadable(content):
    try:
        with np.load(io.BytesIO(content)) as z:
            return len([z[k] for k in z.files])
    except Exception:
        return -1


def canon(files, names, deep):
    """Leftovers are told apart by content (quick: empty / torn / complete) and whether an analysis would look at
    them, not by name."""
    own = tuple((n, files[n]) for n in sorted(files) if n in names)
    rest = {(n.endswith(".npz"), files[n] if deep else (bool(files[n]), loadable(files[n])))
            for n in files if n not in names}
    return own, tuple(sorted(rest))


def add(d, k, i):
    out = dict(d)
    out[k] = tuple(sorted(out.get(k, ()) + (i,)))
    return out


def freeze(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


def cases(tier):
    deep = tier == "thorough"
    inits = [[], [["a", 0]], [["a", 0], ["a", 1]]]
    for init in inits:
        used = len(init)
        a = [["a", used + j] for j in range(4)]
        seqs = [
            [[a[0]], [a[1]]],
            [[a[0], a[1]]],
            [[["b", 5]], [a[0]]],
            [[["b", 5], a[0]]],
            [[a[0], a[1]], [a[2]]],
        ]
        if deep:
            seqs += [
                [[a[0]], [a[1]], [a[2]]],
                [[a[0], a[1], a[2]]],
                [[a[0], ["c", 5], a[1]], [a[2]]],
                [[a[0], a[1]], [a[2], a[3]]],
            ]
        for s in seqs:
            yield {"init": init, "sessions": s, "deep": deep}
        size = 1200
        step = 100
        for lo in range(0, size, step):
            yield {"init": init, "limits": [lo, lo + step], "save": a[0], "next": a[1]}
    for n in (12, 40, 130) + ((300,) if deep else ()):
        for order in ("up", "down", "mixed", "same", "near", "types"):
            for fresh in (True, False):
                yield {"long": n, "order": order, "fresh": fresh}
    for n in (2, 3, 4, 5) if deep else (2, 3, 4):
        for head in itertools.product("ABC", repeat=2 if n > 2 else 0):
            yield {"words": n, "head": "".join(head)}
    for init in inits:
        for other in (["a", 3], ["b", 5]):
            for first in (0, 1) if deep or other[0] == "a" else (0,):
                yield {"init": init, "overlap": [["a", 2], other], "first": first, "deep": deep}
    for sizes in itertools.permutations(KINDS):
        yield {"init": [[k, i] for i, k in enumerate(sizes)], "sessions": [[["a", 4]]], "deep": False}


def run_case(spec, st):
    if not ff.available():
        raise AssertionError("the fault shim is not loaded (run through ./check)")
    if "long" in spec:
        return run_long(spec, st)
    if "words" in spec:
        return run_words(spec, st)
    init = [tuple(x) for x in spec["init"]]
    files = start_files(init)
    sure0 = {}
    for k, i in init:
        sure0 = add(sure0, k, i)
    names = {name_of(k) for k in KINDS}
    if "overlap" in spec:
        return run_overlap(spec, st, files, sure0)
    if "limits" in spec:
        return run_limits(spec, st, files, sure0)
    frontier = {(canon(files, names, spec["deep"]), freeze(sure0), ()): (files, sure0, {})}
    st["states"] += 1
    sessions = spec["sessions"]
    for si, saves in enumerate(sessions):
        saves = [tuple(x) for x in saves]
        session = session_of(saves)
        nxt = {}
        for files, sure, maybe in frontier.values():
            d = ff.materialise(files)
            try:
                acks, end, kinds = ff.in_child(d, session)
                m, new = judge(d, acks, end, sure, maybe, None, len(saves))
                if m:
                    return f"session {si} without a new fault: {m}"
                st["transitions"] += 1
                st["evaluations"] += 1
                keep(nxt, new, names, spec["deep"])
            finally:
                ff.remove(d)
            for fault in ff.faults(kinds, spec["deep"]):
                d = ff.materialise(files)
                try:
                    acks, end, _ = ff.in_child(d, session, fault)
                    st["transitions"] += 1
                    st["evaluations"] += 1
                    if end != "done" or any(a[0] == "failed" for a in acks):
                        st["nontrivial"] += 1
                    m, new = judge(d, acks, end, sure, maybe, fault, len(saves))
                    if m:
                        return f"session {si} of {sessions} after {init}, fault {fault} of steps {kinds}: {m}"
                    keep(nxt, new, names, spec["deep"])
                finally:
                    ff.remove(d)
        frontier = nxt
        st["states"] += len(frontier)
    st["traces"] += 1
    return None


def run_words(spec, st):
    """Every word of saves by two benchmarks of one kind and one of another (A, B, C), by another process (P), of
    loading for analysis and spoiling the loaded arrays (L), and of replacing the first benchmark (N)."""
    for word in itertools.product("ABCPLN", repeat=spec["words"]):
        if not "".join(word).startswith(spec["head"]):
            continue
        d = ff.materialise({})
        old = os.getcwd()
        os.chdir(d)
        try:
            b = {"A": bench("a"), "B": bench("a"), "C": bench("b")}
            sure = {}
            for k, x in enumerate(word):
                st["transitions"] += 1
                i = k % len(POINTS)
                if x == "N":
                    b["A"] = bench("a")
                elif x == "P":
                    acks, end, _ = ff.in_child(d, session_of([("a", i)]))
                    if end != "done" or [y[0] for y in acks] != ["start", "done"]:
                        return f"{word[:k + 1]}: a save fails: {end} {acks}"
                    sure = add(sure, "a", i)
                elif x == "L":
                    a = TopologicalAnalysis(b["A"].filename)
                    if os.path.exists(a.filename):
                        a.load_data()
                        for v in a.data.values():
                            if isinstance(v, np.ndarray) and v.flags.writeable:
                                v[:] = 7
                else:
                    b[x].append_data(*POINTS[i])
                    sure = add(sure, "b" if x == "C" else "a", i)
                e = check_dir(d, sure, {})
                if e:
                    return f"{''.join(word[:k + 1])}: {e}"
            st["states"] += 1
            st["evaluations"] += 1
            st["nontrivial"] += len(set(word)) > 1
        finally:
            os.chdir(old)
            ff.remove(d)
    st["traces"] += 1
    return None


def run_long(spec, st):
    """Many saves without faults: after each, the file holds exactly the saves so far, sorted by rate."""
    n, order = spec["long"], spec["order"]
    rates = {
        "up": [0.001 * (i + 1) for i in range(n)], "down": [0.5 - 0.001 * i for i in range(n)],
        "mixed": [round(0.37 * i % 1, 6) for i in range(n)], "same": [0.05 + 0.01 * (i % 3) for i in range(n)],
        "near": [0.1 + (-1) ** i * i * 1e-13 for i in range(n)],
        "types": [(np.float64(0.01 * i), float(i) / 64, int(i % 2), np.float32(i / 128), 1e-300 * i)[i % 5]
                  for i in range(n)],
    }[order]
    values = [(np.float64(i) / n, 1.0 - i / n, 0, 1, np.float32(0.25))[i % 5] for i in range(n)]
    d = ff.materialise({})
    old = os.getcwd()
    os.chdir(d)
    try:
        b = bench("b")
        for i in range(n):
            if spec["fresh"]:
                b = bench("b")
            b.append_data(rates[i], values[i])
            st["states"] += 1
            st["transitions"] += 1
            a = TopologicalAnalysis(b.filename)
            a.load_data()
            ps = [float(x) for x in a.data["physical_error_rates"]]
            ls = [float(x) for x in a.data["logical_error_rates"]]
            want = sorted((float(p), float(v)) for p, v in zip(rates[:i + 1], values))
            if ps != sorted(ps) or sorted(zip(ps, ls)) != want or len(ps) != len(ls):
                return f"after {i + 1} saves the file holds {list(zip(ps, ls))}, saved were {want}"
            if tuple(a.params["d"]) != KINDS["b"]["d"] or a.params["T"] != KINDS["b"]["T"]:
                return f"loaded parameters {a.params}"
            if os.listdir(".") != [b.filename]:
                return f"files {os.listdir('.')}"
    finally:
        os.chdir(old)
        ff.remove(d)
    st["traces"] += 1
    return None


def keep(nxt, new, names, deep):
    files, sure, maybe = new
    key = (canon(files, names, deep), freeze(sure), freeze(maybe))
    if key not in nxt:
        nxt[key] = new


def judge(d, acks, end, sure, maybe, fault, n):
    started = [a[1:3] for a in acks if a[0] == "start"]
    done = [a[1:3] for a in acks if a[0] == "done"]
    if fault is None and (end != "done" or len(done) != n):
        return f"saving fails: {end} {acks}", None
    if end not in ("done", "crash"):
        return f"the session ended with {end}", None
    for k, i in started:
        if (k, i) in done:
            sure = add(sure, k, i)
        else:
            maybe = add(maybe, k, i)
    m = check_dir(d, sure, maybe)
    if m:
        return m + f" [session ended: {end}; {acks}]", None
    # what the file holds decides the cut-short saves from here on: they stay or are gone for good
    return None, settle(d, sure, maybe)


def settle(d, sure, maybe):
    files = ff.read_dir(d)
    out_s, out_m = dict(sure), {}
    for kind, may in maybe.items():
        path = os.path.join(d, name_of(kind))
        have = []
        if os.path.exists(path):
            with np.load(path) as z:
                have = list(zip(map(float, z["physical_error_rates"]), map(float, z["logical_error_rates"])))
        for i in sure.get(kind, ()):
            have.remove(POINTS[i])
        for i in may:
            if POINTS[i] in have:
                have.remove(POINTS[i])
                out_s = add(out_s, kind, i)
    return files, out_s, out_m


def run_limits(spec, st, files, sure0):
    k, i = spec["save"]
    k2, i2 = spec["next"]
    for size in range(*spec["limits"]):
        for crash in (True, False):
            d = ff.materialise(files)
            try:
                acks, end, _ = ff.in_child(d, session_of([(k, i)]), limit=(size, crash))
                st["evaluations"] += 1
                if end != "done" or any(a[0] == "failed" for a in acks):
                    st["nontrivial"] += 1
                m, new = judge(d, acks, end, sure0, {}, (size, crash), 1)
                if m:
                    return f"file size limit {size} ({'crash' if crash else 'error'}): {m}"
                st["transitions"] += 1
                acks, end, _ = ff.in_child(d, session_of([(k2, i2)]))
                m, new = judge(d, acks, end, new[1], new[2], None, 1)
                if m:
                    return f"save after file size limit {size} ({'crash' if crash else 'error'}): {m}"
                st["transitions"] += 1
            finally:
                ff.remove(d)
    st["states"] += 1
    return None


def run_overlap(spec, st, files, sure0):
    """Two processes save at once. `first` runs k operations, the other m, then - if it is not killed - the first
    goes on to its end, then the other."""
    saves = [tuple(x) for x in spec["overlap"]]
    first = spec["first"]
    other = 1 - first
    total = []
    for k, i in saves:
        d = ff.materialise(files)
        try:
            total.append(len(ff.in_child(d, session_of([(k, i)]))[2]))
        finally:
            ff.remove(d)
    for k in range(total[first] + 2):
        for m in range(total[other] + 4):  # the last ones: to its end, whatever the first one left there
            for kill in (False, True) if spec["deep"] or m in (2, total[other] + 3) else (False,):
                st["states"] += 1
                st["evaluations"] += 1
                st["nontrivial"] += 0 < k < total[first] and m > 0
                e = overlapping(files, sure0, saves, first, k, m, kill, st)
                if e:
                    return (f"{KINDS[saves[first][0]]}: process {first} does {k} operations, then the other one {m}, "
                            f"then {'the first one is killed' if kill else 'the first one goes on'}: {e}")
    st["traces"] += 1
    return None


def overlapping(files, sure0, saves, first, k, m, kill, st):
    d = ff.materialise(files)
    procs = []
    try:
        procs = [ff.Gated(d, session_of([x])) for x in saves]
        a, b = procs[first], procs[1 - first]
        ended, before = [], []
        maybe = {}
        for x in saves:
            maybe = add(maybe, *x)
        for p, n in ((a, k), (b, m), (a, None), (b, None)):
            if p is a and n is None and kill and not a.over:
                a.kill()
            while not p.over and n != 0:
                p.go()
                st["transitions"] += 1
                n = n - 1 if n else n
            if p.over and not p.killed and p not in ended:
                ended.append(p)
                if not (b if p is a else a).ops:
                    before.append(p)  # its save ended before the other one began
            e = check_dir(d, sure0, maybe)
            if e:
                return e
        sure, maybe = dict(sure0), {}
        for p, x in zip(procs, saves):
            if p in ended and (p.end != "done" or [y[0] for y in p.acks] != ["start", "done"]):
                return f"a save fails: {p.end} {p.acks}"
            if p in ended and (p is ended[-1] or p in before or saves[0][0] != saves[1][0]):
                sure = add(sure, *x)
            else:
                maybe = add(maybe, *x)
        return check_dir(d, sure, maybe)
    finally:
        for p in procs:
            p.close()
        ff.remove(d)
