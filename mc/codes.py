"""
The codes under test (through the public API only) and an independent reference description of their
geometry: rotated-lattice checks at half-integer positions, data qubit i at (i // width, i % width).
"""
import warnings

warnings.simplefilter("ignore")

from qiskit import QuantumCircuit  # noqa: E402
from qtcodes import (  # noqa: E402
    RepetitionDecoder,
    RepetitionQubit,
    RotatedDecoder,
    XXZZQubit,
    XZZXQubit,
)

QUBITS = {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "Repetition": RepetitionQubit}


class Code:
    """A code spec: kind in XXZZ / XZZX / RepB (bit-flip) / RepP (phase-flip), lattice (dh, dw)."""

    def __init__(self, kind, dh, dw):
        self.kind, self.dh, self.dw = kind, dh, dw
        self.n = dh * dw

    @classmethod
    def of(cls, spec):
        return cls(*spec)

    @property
    def spec(self):
        return [self.kind, self.dh, self.dw]

    def __repr__(self):
        return f"{self.kind}({self.dh},{self.dw})"

    @property
    def ctype(self):
        return {"XXZZ": "XXZZ", "XZZX": "XZZX", "RepB": "Repetition", "RepP": "Repetition"}[self.kind]

    def params(self):
        if self.kind == "RepB":
            return {"d": self.dh}
        if self.kind == "RepP":
            return {"d": self.dw, "phase-flip-protected": True}
        return {"d": (self.dh, self.dw)}

    def qubit(self, circ=None, name=None):
        kw = {}
        if circ is not None:
            kw["circ"] = circ
        if name is not None:
            kw["name"] = name
        return QUBITS[self.ctype](self.params(), **kw)

    def decoder(self, T):
        p = self.params()
        p["T"] = T
        return (RepetitionDecoder if self.ctype == "Repetition" else RotatedDecoder)(p)

    # ---- reference geometry ----------------------------------------------------------------------
    def zchecks(self):
        """Sites of the checks that see errors flipping the logical Z readout ("Z" hits)."""
        return [(i + 0.5, j + 0.5) for i in range(self.dh - 1) for j in range(-1, self.dw)
                if (i + j) % 2 == 0 and self.support((i + 0.5, j + 0.5))]

    def xchecks(self):
        return [(i + 0.5, j + 0.5) for i in range(-1, self.dh) for j in range(self.dw - 1)
                if (i + j) % 2 == 1 and self.support((i + 0.5, j + 0.5))]

    def checks(self, typ):
        return self.zchecks() if typ == "Z" else self.xchecks()

    def support(self, site):
        r, c = site
        return [(a, b) for a in (int(r - 0.5), int(r + 0.5)) for b in (int(c - 0.5), int(c + 0.5))
                if 0 <= a < self.dh and 0 <= b < self.dw]

    def pos(self, i):
        return divmod(i, self.dw)

    def effective(self, pauli, i):
        """(flips Z-type checks, flips X-type checks) of a physical Pauli on data qubit i."""
        x, z = pauli in ("x", "y"), pauli in ("z", "y")
        if self.kind == "XZZX" and i % 2 == 0:
            x, z = z, x
        return x, z

    def physical(self, effx, effz, i):
        """Name of the physical Pauli with the given effective components (None = identity)."""
        if self.kind == "XZZX" and i % 2 == 0:
            effx, effz = effz, effx
        return {(1, 0): "x", (0, 1): "z", (1, 1): "y", (0, 0): None}[(int(effx), int(effz))]

    def adjacent(self, typ, i):
        r, c = self.pos(i)
        return [s for s in self.checks(typ) if abs(s[0] - r) == 0.5 and abs(s[1] - c) == 0.5]

    def crosses(self, typ, i):
        """Does an error of the kind seen by `typ` checks on data qubit i flip the logical readout?"""
        r, c = self.pos(i)
        return r == 0 if typ == "Z" else c == 0

    def distance(self, typ):
        return self.dh if typ == "Z" else self.dw

    def has(self, typ):
        """Does the code protect the basis (are there checks of this type)?"""
        return bool(self.checks(typ))


def odd_lattices(maxside, maxn, minn=2):
    return [(a, b) for a in range(1, maxside + 1, 2) for b in range(1, maxside + 1, 2)
            if minn <= a * b <= maxn]


def all_codes(maxside, maxn, maxrep=None, minn=2):
    out = []
    for a, b in odd_lattices(maxside, maxn, minn):
        out.append(Code("XXZZ", a, b))
        out.append(Code("XZZX", a, b))
    for d in range(3, (maxrep or maxside) + 1, 2):
        out.append(Code("RepB", d, 1))
        out.append(Code("RepP", 1, d))
    return out


def qidx(circ, reg):
    return [circ.find_bit(b).index for b in reg]


def data_of(q):
    """Circuit indices of the data qubits."""
    return qidx(q.circ, q.lattice.qregisters["data"])


def all_of(q):
    out = []
    for reg in q.lattice.qregisters.values():
        out += qidx(q.circ, reg)
    return out


def new_clbits(circ, before):
    """Indices of the classical bits added since there were `before` of them."""
    return list(range(before, circ.num_clbits))
