"""Controlled benchmark set-ups: a real circuit and real simulator whose result string encodes the noise model."""
import contextlib
import os
import shutil
import tempfile

import numpy as np

from qiskit import QuantumCircuit
from qtcodes import TopologicalBenchmark

BITS = 7


def circuit(bits=BITS):
    circ = QuantumCircuit(bits, bits)
    for q in range(bits):
        circ.id(q)
        circ.measure(q, q)
    return circ


def noise_func(code_of, calls=None):
    """p -> noise model that flips exactly the bits of code_of(p)."""

    def f(p):
        from qiskit_aer.noise import NoiseModel, pauli_error

        if calls is not None:
            calls.append(p)
        nm = NoiseModel()
        for q in range(BITS):
            if code_of(p) >> q & 1:
                nm.add_quantum_error(pauli_error([("X", 1.0)]), "id", [q])
        return nm

    return f


class Decoder:
    """Decodes code string -> outcome; remembers what it was asked."""

    def __init__(self, outcome, d=(3, 1), T=1):
        self.params = {"d": d, "T": T}
        self.outcome = outcome
        self.calls = []

    def correct_readout(self, syndromes, logical_readout_type, logical_qubit_value=None, err_prob=None):
        code = int(syndromes.replace(" ", ""), 2)
        self.calls.append((code, logical_readout_type, err_prob))
        return self.outcome(code)


@contextlib.contextmanager
def scratch():
    """A private working directory."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="mc-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def load(path):
    with np.load(path) as z:
        return {k: np.array(z[k]) for k in z.files}


def points(path):
    z = load(path)
    return list(zip(map(float, z["physical_error_rates"]), map(float, z["logical_error_rates"])))
