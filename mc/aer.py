"""Conformance of the affine executor with qiskit-aer: every string Aer returns must be reachable."""
from .common import SEED
from .interp import render, run_all_branches, string_layout


def reachable(runs, layout, string):
    """Is the string produced by some assignment of the runs' variables?"""
    want = [int(ch) for chunk in string.split(" ") for ch in chunk]
    bits = [i for chunk in layout for i in chunk]
    for res in runs:
        # solve the affine system form(bit) = value
        piv = {}
        ok = True
        for i, w in zip(bits, want):
            v = res.cl[i] ^ w
            while v & ~1:
                b = v.bit_length() - 1
                if b not in piv:
                    piv[b] = v
                    break
                v ^= piv[b]
            else:
                if v & 1:
                    ok = False
                    break
        if ok:
            return True
    return False


def counts(circ, shots=64, seed=None, noise_model=None):
    from qiskit_aer import AerSimulator

    be = AerSimulator(method="stabilizer", max_parallel_threads=1)
    return be.run(circ, shots=shots, seed_simulator=SEED if seed is None else seed,
                  noise_model=noise_model).result().get_counts()


def conform(circ, st, shots=48):
    runs = list(run_all_branches(circ))
    layout = string_layout(circ)
    for s in counts(circ, shots):
        st["aer"] += 1
        st["traces"] += 1
        if not reachable(runs, layout, s):
            return f"qiskit-aer returned {s}, which the model says is unreachable"
    return None
