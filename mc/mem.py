"""Memory experiments on real circuits: preparation, rounds with fault slots, readout, result strings."""
from . import hist
from .codes import data_of, new_clbits
from .interp import compile_circuit, render, run, string_layout


class Memory:
    """
    prep r<basis> (+ logical flip), rounds, readout in `basis`.  T decoding time steps: T+1 rounds and a logical
    readout (style "m") or T rounds and a whole-lattice readout (style "l").
    data slot t (0..T-1) lies between syndrome chunks t and t+1; measurement faults sit in chunks 1..T-1.
    """

    def __init__(self, code, basis, value, T, style, data_faults=True, meas_faults=True):
        self.code, self.basis, self.T, self.style = code, basis, T, style
        q = self.q = code.qubit()
        low = basis.lower()
        hist.apply(q, "r" + low)
        if value:
            hist.apply(q, "x" if basis == "Z" else "z")
        data = data_of(q)
        faults, clfaults = {}, {}
        rounds = T + 1 if style == "m" else T
        for r in range(rounds):
            if r and data_faults:
                faults[len(q.circ.data)] = [(("d", r - 1, i, p), p, data[i]) for i in range(code.n) for p in "xz"]
            bits = hist.apply(q, "s")
            if meas_faults and 1 <= r <= T - 1:
                for k, b in enumerate(bits):
                    clfaults[b] = ("m", r, k)
        if style == "l" and data_faults:
            faults[len(q.circ.data)] = [(("d", T - 1, i, p), p, data[i]) for i in range(code.n) for p in "xz"]
        hist.apply(q, style + low)
        self.faults, self.clfaults = faults, clfaults
        self.res = run(compile_circuit(q.circ), q.circ.num_qubits, q.circ.num_clbits, faults=faults,
                       clfaults=clfaults)
        self.layout = string_layout(q.circ)
        self.var = dict(self.res.faultvar)
        # key -> mask of the fault variable; bit v of an assignment is variable v
        self.rand = self.res.rand_vars()

    def mask(self, keys):
        m = 0
        for k in keys:
            m ^= self.var[k]
        return m

    def string(self, assignment):
        return render(self.layout, self.res.cl, assignment)

    def keys(self, kind):
        return [k for k in self.var if k[0] == kind]

    def explicit(self, keys):
        """The real circuit with the faults as explicit gates, for a stock simulator."""
        circ = self.q.circ
        keys = set(keys)
        out = circ.copy_empty_like()
        flip = {b for b, k in self.clfaults.items() if k in keys}
        for i, ins in enumerate(circ.data):
            for key, p, qb in self.faults.get(i, ()):
                if key in keys:
                    getattr(out, p)(circ.qubits[qb])
            if ins.operation.name == "measure" and circ.find_bit(ins.clbits[0]).index in flip:
                # auxiliary qubits are reset after the measurement, so this only flips the recorded value
                out.x(ins.qubits[0])
                out._append(ins)
                out.x(ins.qubits[0])
            else:
                out._append(ins)
        return out
