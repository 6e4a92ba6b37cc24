"""Operation histories on encoded qubits (real circuits) and on the ideal single-qubit machine."""
from qiskit import ClassicalRegister

from .codes import new_clbits


def own_register(q):
    """A one-bit register of the caller on the qubit's circuit."""
    reg = ClassicalRegister(1, f"own{q.circ.num_clbits}")
    q.circ.add_register(reg)
    return reg


LOGICAL = {
    "rz": lambda q: q.reset_z(),
    "rx": lambda q: q.reset_x(),
    "x": lambda q: q.x(),
    "z": lambda q: q.z(),
    "s": lambda q: q.stabilize(),
    "id": lambda q: q.id(),
    "idd": lambda q: q.id_data(),
    "mz": lambda q: q.readout_z(),
    "mx": lambda q: q.readout_x(),
    "lz": lambda q: q.lattice_readout_z(),
    "lx": lambda q: q.lattice_readout_x(),
    "Mz": lambda q: q.readout_z(readout_creg=own_register(q)),
    "Mx": lambda q: q.readout_x(own_register(q)),
}


def apply(q, op):
    """Apply an operation; returns the indices of the classical bits it added."""
    before = q.circ.num_clbits
    LOGICAL[op](q)
    return new_clbits(q.circ, before)


def sequences(alphabet, length, minlen=0):
    """All words over the alphabet with minlen..length letters."""
    level = [()]
    if minlen == 0:
        yield ()
    for n in range(1, length + 1):
        level = [w + (a,) for w in level for a in alphabet]
        if n >= minlen:
            yield from level
