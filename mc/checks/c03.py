"""
C03: an encoded qubit behaves like an ideal qubit under every operation history.

Every word over the logical operations is executed on the real circuit (affine tableau: all branches) and on
an ideal one-qubit machine; the joint distributions of all logical readouts must be identical.
"""
from .. import aer, hist
from ..codes import Code, all_codes
from ..interp import compile_circuit, run
from ..lin import relations
from ..tableau import Tableau

LEVEL = "model_checking"
RULE = ("every word over {reset_z, reset_x, x, z, stabilize, id, id_data, readout_z, readout_x, lattice_readout_z/x, "
        "readouts into registers of the caller} "
        "that starts with a preparation (and re-prepares after a lattice readout) up to the bound, plus every short "
        "word repeated many times, for every code x odd lattice in bounds; states = histories, transitions = "
        "executed circuit steps")
ASSUMPTIONS = ["noiseless execution", "a lattice readout is destructive: it is followed by a preparation or nothing"]

OPS = ["rz", "rx", "x", "z", "s", "mz", "mx", "id", "idd", "lz", "lx"]


def words(ops, L):
    """Words after a preparation; lattice readouts are last or followed by a preparation."""
    def rec(w, left):
        yield w
        if left:
            for o in ops:
                if w and w[-1] in ("lz", "lx") and o not in ("rz", "rx"):
                    continue
                yield from rec(w + [o], left - 1)
    for p in ("rz", "rx"):
        yield from rec([p], L)


def cases(tier):
    th = tier == "thorough"
    for c in all_codes(9 if th else 7, 81 if th else 49, 15 if th else 11, minn=1):
        if c.n <= 3:
            L = 5 if th else 4
        elif c.n <= 9:
            L = 4 if th else 3
        elif c.n <= 25:
            L = 3 if th else 2
        else:
            L = 2 if th else 1
        for w in words(OPS, L):
            if len(w) == L + 1 or L < 2:  # shorter words are prefixes of longer ones
                yield {"code": c.spec, "w": w}
        # tails that read out in both bases, after every word of the core operations
        core = ["x", "z", "s", "rz", "rx", "mz", "mx"]
        for w in words(core, L):
            for tail in ("lz", "lx", "mz", "mx"):
                yield {"code": c.spec, "w": w + [tail]}
        # readouts into registers of the caller
        for w in words(["x", "z", "s", "mz", "mx", "Mz", "Mx"], min(L, 3)):
            if "Mz" in w or "Mx" in w:
                yield {"code": c.spec, "w": w + ["mz", "Mx"]}
        # long histories (register counters, many rounds)
        for w in hist.sequences(["x", "z", "s", "mz", "mx", "rx"], 2 if c.n <= 9 else 1, 1):
            yield {"code": c.spec, "w": ["rz"] + list(w) * (14 // len(w))}
    for kind in ("XXZZ", "XZZX"):
        for a, b in ((9, 9), (11, 11), (13, 13), (15, 15), (3, 11), (11, 3), (3, 17), (17, 3), (1, 21), (21, 1),
                     (1, 33), (33, 1), (13, 5), (5, 13)):
            for p in ("rz", "rx"):
                for w in (["s", "mz"], ["s", "mx"], ["x", "lz"], ["z", "lx"], ["s", "x", "mz", "z", "mx", "s", "lx"]):
                    yield {"code": [kind, a, b], "w": [p] + w}
    for c in all_codes(5, 15, 5):
        for w in (["rz", "s", "mz", "x", "s", "mz", "mx", "z", "mx", "s", "lx"],
                  ["rx", "z", "s", "mx", "mz", "mz", "s", "lz"]):
            yield {"code": c.spec, "w": w, "aer": True}


def ideal(word):
    t = Tableau(1)
    out = []
    for o in word:
        if o in ("rz", "rx"):
            t.reset(0)
            if o == "rx":
                t.h(0)
        elif o == "x":
            t.X(0)
        elif o == "z":
            t.Z(0)
        elif o in ("mz", "Mz", "lz"):
            out.append(t.measure(0))
        elif o in ("mx", "Mx", "lx"):
            t.h(0)
            out.append(t.measure(0))
            t.h(0)
    return out


_logical = {}


def lattice_logical(c, q, basis):
    """Which data bits the library adds up to the logical value of a lattice readout (black-box probing)."""
    key = (c.kind, c.dh, c.dw, basis)
    if key not in _logical:
        if c.n == 1:
            _logical[key] = (0, [0])
        else:
            rest = " " + "0" * (c.n - 1)
            base = q.parse_readout("0" * c.n + rest, basis)[0]
            bits = []
            for i in range(c.n):
                s = ["0"] * c.n
                s[c.n - 1 - i] = "1"
                if q.parse_readout("".join(s) + rest, basis)[0] != base:
                    bits.append(i)
            _logical[key] = (base, bits)
    return _logical[key]


def run_case(spec, st):
    c = Code.of(spec["code"])
    q = c.qubit()
    outs = []
    for o in spec["w"]:
        bits = hist.apply(q, o)
        if o in ("mz", "mx", "Mz", "Mx"):
            if len(bits) != 1:
                return f"a logical readout created {len(bits)} bits"
            outs.append((0, bits))
        elif o in ("lz", "lx"):
            if len(bits) != c.n:
                return f"a lattice readout created {len(bits)} bits"
            const, sel = lattice_logical(c, q, o[1].upper())
            outs.append((const, [bits[i] for i in sel]))
    if spec.get("aer"):
        return aer.conform(q.circ, st, 32)
    res = run(compile_circuit(q.circ), q.circ.num_qubits, q.circ.num_clbits)
    st["states"] += 1
    st["traces"] += 1
    st["transitions"] += res.steps
    real = []
    for const, bits in outs:
        f = const
        for b in bits:
            f ^= res.cl[b]
        real.append(f)
    want = ideal(spec["w"])
    if relations(real) != relations(want):
        return (f"joint distribution of the readouts differs from an ideal qubit: relations "
                f"{[bin(r) for r in relations(real)]} instead of {[bin(r) for r in relations(want)]}")
    return None
