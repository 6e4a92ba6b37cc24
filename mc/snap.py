"""Structural snapshots of circuits (order, registers, operands, conditions) independent of object identity."""


def _cond(op, circ):
    c = getattr(op, "condition", None)
    if c is None:
        return None
    tgt, val = c
    try:
        return (tuple(circ.find_bit(b).index for b in tgt), int(val))
    except TypeError:
        return ((circ.find_bit(tgt).index,), int(val))


def instr(circ, ins):
    op = ins.operation
    return (op.name, tuple(map(float, op.params)) if op.name not in ("barrier",) else (),
            tuple(circ.find_bit(b).index for b in ins.qubits),
            tuple(circ.find_bit(b).index for b in ins.clbits), _cond(op, circ))


def circuit(circ):
    return {
        "q": [(r.name, len(r)) for r in circ.qregs],
        "c": [(r.name, len(r)) for r in circ.cregs],
        "nq": circ.num_qubits,
        "nc": circ.num_clbits,
        "i": [instr(circ, i) for i in circ.data],
    }


def register(treg):
    return {
        "n": treg.n,
        "subs": {k: {i: (type(t).__name__, t.name, id(t)) for i, t in v.items()} for k, v in treg.tqubits.items()},
        "params": len(treg.params),
    }


def ops(circ, start=0):
    """Instructions without barriers."""
    return [instr(circ, i) for i in circ.data[start:] if i.operation.name != "barrier"]
