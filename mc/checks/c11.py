"""
C11: exactly the odd positive lattices are accepted, consistently in encoders and decoders.

The whole bounded configuration space (every integer size, every pair of integer sizes, every way of writing
it, every protection flag) is constructed on the real code; an accepted size must give the data qubits, checks,
syndrome bits and decoding-graph nodes of that lattice, and every other size must be refused with LatticeError.
"""
from itertools import product

import numpy as np

from qiskit import QuantumCircuit
from qtcodes import (RepetitionDecoder, RepetitionQubit, RotatedDecoder,
                     TopologicalRegister, XXZZQubit, XZZXQubit)

from qtcodes.circuits.base import LatticeError

from ..codes import Code

LEVEL = "model_checking"
RULE = ("every integer size and every pair of integer sizes in range (negative, zero, even included), as python int, "
        "numpy int, tuple or list, x every encoder, decoder, register entry and protection flag; states = objects "
        "requested, transitions = accepted ones examined")
ASSUMPTIONS = ["sizes are numbers or sequences of numbers (text is outside the quantifier)"]


def forms(a, b=None):
    """All ways of writing the same size."""
    if b is None:
        return [a, np.int64(a), np.int32(a), float(a)] if a == int(a) else [a, np.float64(a)]
    if a == int(a) and b == int(b):
        return [(a, b), (np.int64(a), np.int64(b)), (float(a), float(b)), [a, b], np.array([a, b])]
    return [(a, b), (np.float64(a), b), [a, b], np.array([a, b])]


def cases(tier):
    lo, hi = (-13, 16) if tier == "quick" else (-33, 26)
    plo, phi = (-5, 13) if tier == "quick" else (-9, 18)
    for what in ("XXZZ", "XZZX", "Rep", "Rep0", "Rep1", "RotDec", "RepDec", "RepDec0", "RepDec1"):
        yield {"what": what, "size": None}
        for a in range(lo, hi):
            yield {"what": what, "size": [a]}
        for a in range(plo, phi):
            for b in range(plo, phi):
                yield {"what": what, "size": [a, b]}
        # sizes far outside the usual range that must be refused
        for far in (-101, -99, -16, 16, 20, 32, 64, 100, 128):
            yield {"what": what, "size": [far]}
            for a in (-1, 0, 1, 3, 4):
                yield {"what": what, "size": [a, far]}
                yield {"what": what, "size": [far, a]}
        # sizes between the integers, and other numbers of sides
        for far in (-3, -1, -0.5, 0, 0.5, 1, 2.5, 3, 3.25, 3.5, 4.5, 5, 5.999, 7.5):
            if far != int(far):
                yield {"what": what, "size": [far]}
            for a in (1, 3, 3.5):
                if far != int(far) or a != int(a):
                    yield {"what": what, "size": [a, far]}
                    yield {"what": what, "size": [far, a]}
        for sides in product((1, 3, 5), repeat=3):
            yield {"what": what, "sides": list(sides)}
        for sides in ([], [1], [3], [5], [3, 1, 1, 1], [1, 3, 2]):
            yield {"what": what, "sides": sides}
    # long thin lattices
    for what in ("XXZZ", "XZZX", "Rep0", "Rep1", "RotDec", "RepDec0", "RepDec1"):
        for a in (15, 17, 21, 25, 31):
            for b in (1, 3):
                yield {"what": what, "size": [a, b]}
                yield {"what": what, "size": [b, a]}
    for what in ("XXZZ", "Rep0", "Rep1", "RotDec"):
        for a in (17, 19) if tier == "quick" else (19, 21, 23):
            yield {"what": what, "size": [a]}
            yield {"what": what, "size": [a - 1]}


    # large lattices (decoders only: their circuits are too big to build in a sweep)
    for what, sizes in (("RotDec", ([45], [44], [1, 1001], [1001, 3], [3, 701], [1001, 2], [701, 4])),
                        ("RepDec0", ([1001], [1000], [1101, 1], [1, 1001])), ("RepDec1", ([1001], [1000], [1, 1101], [1001, 1]))):
        for size in sizes:
            yield {"what": what, "size": size, "large": True}


def flag(what):
    return {"phase-flip-protected": what[-1] == "1"} if what[-1] in "01" else {}


def run_case(spec, st):
    what, size = spec["what"], spec.get("size")
    rep = what.startswith("Rep")
    phase = what.endswith("1")
    ways = [None] if size is None else forms(*size)
    if rep and size is not None and len(size) == 2:
        ways = [w for w in ways if isinstance(w, tuple)]  # the repetition code takes a number or a tuple
    if "sides" in spec:
        ways, dims = [tuple(spec["sides"]), list(spec["sides"]), np.array(spec["sides"])], (0, 0)
    elif size is None:
        if what == "RotDec":
            return None  # the decoder requires an explicit size
        dims = ((1, 3) if phase else (3, 1)) if rep else (3, 3)
    elif len(size) == 1:
        dims = ((1, size[0]) if phase else (size[0], 1)) if rep else (size[0], size[0])
    else:
        dims = tuple(size)
    ok = all(s > 0 and s % 2 == 1 for s in dims)
    if rep and (dims[0] if phase else dims[1]) != 1:
        ok = False
    if ok:
        dims = tuple(int(s) for s in dims)
    for w in ways[:1] if spec.get("large") else ways:
        par = dict(flag(what))
        if w is not None:
            par["d"] = w
        st["states"] += 1
        st["traces"] += 1
        e = construct(what, par, ok, dims, st, w)
        if e:
            return f"{what} with d={w!r}: {e}"
    return None


def attempt(f):
    try:
        return f(), None
    except LatticeError as e:
        return None, e


def construct(what, par, ok, dims, st, w):
    if what.endswith(("Dec", "Dec0", "Dec1")):
        cls = RotatedDecoder if what == "RotDec" else RepetitionDecoder
        for T in (1,) if dims[0] * dims[1] > 1000 else (1, 2):
            dec, err = attempt(lambda: cls({**par, "T": T}))
            if (err is None) != ok:
                return "accepted" if err is None else f"refused: {err}"
            if ok:
                st["transitions"] += 1
                e = graph(dec, what, dims, T)
                if e:
                    return e
        return None
    cls = {"X": {"XXZZ": XXZZQubit, "XZZX": XZZXQubit}.get(what), "R": RepetitionQubit}[what[0]]
    ctype = what if what[0] == "X" else "Repetition"
    q, err = attempt(lambda: cls(dict(par)))
    if (err is None) != ok:
        return "accepted" if err is None else f"refused: {err}"
    if ok:
        st["transitions"] += 1
        e = encoder(q, what, dims)
        if e:
            return e
    if w is None and not par:
        for other in (cls(), cls(None), cls(name="n")):
            e = encoder(other, what, dims)
            if e:
                return "without params: " + e
    # the same through a register and on a caller's circuit
    treg = TopologicalRegister()
    r, err = attempt(lambda: treg.add_tqubit("data", ctype, dict(par)))
    if (err is None) != ok:
        return "accepted by the register" if err is None else f"refused by the register: {err}"
    if ok and len(treg[0].lattice.qregisters["data"]) != dims[0] * dims[1]:
        return "the register built another size"
    r, err = attempt(lambda: TopologicalRegister(ctypes=[ctype], params=[dict(par)]))
    if (err is None) != ok:
        return "accepted by the register constructor" if err is None else f"refused by the constructor: {err}"
    r, err = attempt(lambda: cls(dict(par), name="q", circ=QuantumCircuit(2)))
    if (err is None) != ok:
        return "accepted on a circuit" if err is None else f"refused on a circuit: {err}"
    return None


def encoder(q, what, dims):
    c = Code(what if what[0] == "X" else "XXZZ", *dims)
    n = dims[0] * dims[1]
    got = {k: len(v) for k, v in q.lattice.qregisters.items()}
    if got.get("data") != n:
        return f"{got.get('data')} data qubits instead of {n}"
    if got.get("mz", 0) != len(c.zchecks()) or got.get("mx", 0) != len(c.xchecks()):
        return f"check qubits {got} instead of Z {len(c.zchecks())}, X {len(c.xchecks())}"
    if got.get("mz", 0) + got.get("mx", 0) != n - 1:
        return f"{got} is not one logical qubit"
    if n <= 49:
        for i in range(2):
            b = q.circ.num_clbits
            q.stabilize()
            if q.circ.num_clbits - b != n - 1:
                return f"{q.circ.num_clbits - b} syndrome bits in round {i} instead of {n - 1}"
        b = q.circ.num_clbits
        q.lattice_readout_z()
        if q.circ.num_clbits - b != n:
            return f"whole-lattice readout of {q.circ.num_clbits - b} bits instead of {n}"
    return None


def graph(dec, what, dims, T):
    c = Code("XXZZ", *dims)
    keys = {"Z": True, "X": True}
    if what != "RotDec":
        keys = {"X" if what[-1] == "1" else "Z": True}
    if set(dec.S) != set(keys):
        return f"decoding graphs {sorted(dec.S)} instead of {sorted(keys)}"
    for k in keys:
        want = {(t,) + s for t in range(T) for s in c.checks(k)}
        got = [v for v in dec.S[k].nodes() if v[0] != -1]
        if len(got) != len(set(got)) or set(got) != want:
            return f"{k} graph has {len(got)} hit nodes instead of {len(want)} (T={T})"
    # parser of the decoder agrees on the size
    n = dims[0] * dims[1]
    if n > 1:
        s = " ".join(["0" * n] + ["0" * (n - 1)] * T)
        for k in keys:
            v, hits = dec.parse_readout(s, k)
            if v != 0 or any(hits.get(x) for x in hits):
                return f"an all-zero result parses to {v}, {hits}"
    return None
