"""
Executes real qiskit circuits (as emitted by the library under test) on the affine tableau.

`compile_circuit` turns the instruction list into primitive steps once; `run` executes them.  Faults are
given as insertions of symbolic Paulis before an instruction index, or as symbolic flips of the value
written to a classical bit.
"""
from collections import namedtuple

from .tableau import Tableau, NonAffine, parity

PAULI = {"x": "x", "y": "y", "z": "z"}
DIRECT1 = {"h", "s", "sdg"}


class Unsupported(Exception):
    pass


Step = namedtuple("Step", "op a b cond src")


def _cond_of(op, circ):
    c = getattr(op, "condition", None)
    if c is None:
        return None
    tgt, val = c
    return _norm_cond(tgt, val, circ)


def _norm_cond(tgt, val, circ):
    if hasattr(tgt, "__len__") and not hasattr(tgt, "_register_"):
        try:
            bits = tuple(circ.find_bit(b).index for b in tgt)
            return (bits, int(val))
        except TypeError:
            pass
    return ((circ.find_bit(tgt).index,), int(val))


def compile_circuit(circ, start=0):
    steps = []
    for i, ins in enumerate(circ.data):
        if i < start:
            continue
        op = ins.operation
        q = [circ.find_bit(b).index for b in ins.qubits]
        c = [circ.find_bit(b).index for b in ins.clbits]
        _emit(steps, op, q, c, i, (), circ)
    return steps


def _emit(steps, op, q, c, src, conds, circ):
    cond = _cond_of(op, circ)
    if cond is not None and op.name not in ("if_else",):
        conds = conds + (cond,)
    name = op.name
    add = lambda o, a=None, b=None: steps.append(Step(o, a, b, conds, src))
    if name in ("barrier", "delay"):
        return
    if name == "id":
        add("id", q[0])
    elif name in PAULI or name in DIRECT1 or name == "reset":
        add(name, q[0])
    elif name in ("sx",):
        add("h", q[0]), add("s", q[0]), add("h", q[0])
    elif name in ("sxdg",):
        add("h", q[0]), add("sdg", q[0]), add("h", q[0])
    elif name in ("cx", "cz", "swap"):
        add(name, q[0], q[1])
    elif name == "cy":
        add("sdg", q[1]), add("cx", q[0], q[1]), add("s", q[1])
    elif name == "measure":
        add("measure", q[0], c[0])
    elif name == "if_else":
        cnd = op.condition
        norm = _norm_cond(cnd[0], cnd[1], circ)
        tb = op.blocks[0]
        _emit_block(steps, tb, q, c, src, conds + (norm,), circ)
        if len(op.blocks) > 1 and op.blocks[1] is not None:
            _emit_block(steps, op.blocks[1], q, c, src, conds + (("not",) + norm,), circ)
    else:
        d = getattr(op, "definition", None)
        if d is None:
            raise Unsupported(name)
        _emit_block(steps, d, q, c, src, conds, circ)


def _emit_block(steps, block, q, c, src, conds, circ):
    for ins in block.data:
        bq = [q[block.find_bit(b).index] for b in ins.qubits]
        bc = [c[block.find_bit(b).index] for b in ins.clbits]
        _emit(steps, ins.operation, bq, bc, src, conds, circ)


class Run:
    """Result of executing a circuit: the tableau, the affine form of every classical bit and the faults."""

    def __init__(self, tab, nclbits):
        self.tab = tab
        self.cl = [0] * nclbits
        self.faultvar = {}  # fault key -> form
        self.steps = 0

    def rand_vars(self):
        return [v for v in range(1, self.tab.nvars + 1)
                if self.tab.varkind[v][0] != "fault" and v not in self.tab.fixed]


def _cond_form(cond, cl):
    """Affine form of a condition, or NonAffine."""
    neg = cond[0] == "not"
    if neg:
        cond = cond[1:]
    bits, val = cond
    if val >> len(bits):
        form = 0
    else:
        # constant bits decide; at most one symbolic bit remains affine
        sym = None
        ok = True
        for k, b in enumerate(bits):
            want = val >> k & 1
            fb = cl[b]
            if fb in (0, 1):
                if fb != want:
                    ok = False
            elif sym is None:
                sym = (fb, want)
            elif sym == (fb, want):
                pass
            elif sym[0] ^ fb == 1 and (sym[1] ^ want) == 1:
                pass
            else:
                v = fb & ~1
                raise NonAffine((v & -v).bit_length() - 1)
        if not ok:
            form = 0
        elif sym is None:
            form = 1
        else:
            form = sym[0] ^ 1 ^ sym[1]
    return form ^ 1 if neg else form


def run(steps, nq, ncl, tab=None, cl=None, faults=None, clfaults=None, fixed=None, until=None, extra=0):
    """
    faults: {instruction index: [(key, pauli, qubit)]} inserted before that instruction
    clfaults: {clbit: key}  flips the value recorded by the (next) measurement into that bit
    extra: additional reference qubits after the nq circuit qubits
    """
    if tab is None:
        tab = Tableau(nq + extra, fixed)
    res = Run(tab, ncl)
    if cl is not None:
        res.cl[: len(cl)] = cl
    faults = dict(faults) if faults else {}
    pending = sorted(faults)
    pi = 0
    clf = clfaults or {}
    for st in steps:
        while pi < len(pending) and pending[pi] <= st.src:
            _insert(res, faults[pending[pi]])
            pi += 1
        res.steps += 1
        form = 1
        for cnd in st.cond:
            f = _cond_form(cnd, res.cl)
            if f == 1:
                continue
            if f == 0:
                form = 0
                break
            if form == 1 or form == f:
                form = f
            elif form ^ f == 1:
                form = 0
                break
            else:
                v = f & ~1
                raise NonAffine((v & -v).bit_length() - 1)
        if form == 0:
            continue
        op = st.op
        if form != 1:
            if op in PAULI:
                tab.pauli_if(op, st.a, form)
                continue
            if op == "id":
                continue
            v = form & ~1
            raise NonAffine((v & -v).bit_length() - 1)
        if op == "cx":
            tab.cx(st.a, st.b)
        elif op == "h":
            tab.h(st.a)
        elif op == "measure":
            o = tab.measure(st.a, ("rand", st.a))
            if st.b in clf:
                key = clf[st.b]
                fv = tab.new_var(("fault", key))
                res.faultvar[key] = fv
                o ^= fv
            res.cl[st.b] = o
        elif op == "reset":
            tab.reset(st.a)
        elif op == "x":
            tab.X(st.a)
        elif op == "z":
            tab.Z(st.a)
        elif op == "y":
            tab.Y(st.a)
        elif op == "cz":
            tab.cz(st.a, st.b)
        elif op == "swap":
            tab.swap(st.a, st.b)
        elif op == "s":
            tab.s(st.a)
        elif op == "sdg":
            tab.sdg(st.a)
        elif op == "id":
            pass
        else:
            raise Unsupported(op)
    while pi < len(pending):
        _insert(res, faults[pending[pi]])
        pi += 1
    return res


def _insert(res, lst):
    for key, p, q in lst:
        fv = res.faultvar.get(key)
        if fv is None:
            fv = res.tab.new_var(("fault", key))
            res.faultvar[key] = fv
        res.tab.pauli_if(p, q, fv)


def run_circuit(circ, **kw):
    return run(compile_circuit(circ), circ.num_qubits, circ.num_clbits, **kw)


def run_all_branches(circ, **kw):
    """Like run_circuit, but splits on variables that make a condition non-affine. Yields Runs."""
    steps = compile_circuit(circ)
    stack = [dict(kw.pop("fixed", None) or {})]
    while stack:
        fixed = stack.pop()
        try:
            yield run(steps, circ.num_qubits, circ.num_clbits, fixed=fixed, **kw)
        except NonAffine as e:
            assert e.var not in fixed
            stack.append({**fixed, e.var: 1})
            stack.append({**fixed, e.var: 0})


# ---- result strings ----------------------------------------------------------------------------

def string_layout(circ):
    """[[clbit index, ...] per chunk] in the order of a qiskit counts key."""
    out = []
    for reg in reversed(circ.cregs):
        out.append([circ.find_bit(b).index for b in reversed(list(reg))])
    return out


def render(layout, cl, assignment):
    a = assignment | 1
    return " ".join("".join("1" if (cl[i] & a).bit_count() & 1 else "0" for i in ch) for ch in layout)
