"""
C13: objects built from the same parameters or circuit inputs stay independent.

Every bounded history of constructions (encoders on their own or a shared circuit, decoders, registers, default
CNOT ancillas) and uses that share one parameter object is executed on the real code and compared with (a) the
same history in which every object gets a private copy and (b) every object run alone with its own operations.
"""
import copy
import os
import pickle
from itertools import product

from qiskit import QuantumCircuit
from qtcodes import (RepetitionDecoder, RepetitionQubit, RotatedDecoder, TopologicalCircuit, TopologicalRegister,
                     XXZZQubit, XZZXQubit)

from .. import snap
from ..codes import Code

LEVEL = "model_checking"
RULE = ("every word up to the bound over constructions and uses (first/last object) sharing one parameter object, "
        "for every kind and way of writing the size; every ordered pair (thorough: triple) "
        "of kinds in one process against a process that built only that kind; registers built repeatedly from the "
        "same lists; states = histories executed, transitions = letters, traces = "
        "comparisons with private copies and with objects run alone")
ASSUMPTIONS = ["the caller does not edit the shared dictionary in between",
               "only objects of matching kind share a dictionary (the repetition code writes its size differently)"]

FAMS = {
    "xxzz": (XXZZQubit, RotatedDecoder, "XXZZ", "XXZZ"),
    "xzzx": (XZZXQubit, RotatedDecoder, "XZZX", "XZZX"),
    "both": (XXZZQubit, RotatedDecoder, "XXZZ", "XXZZ"),
    "repb": (RepetitionQubit, RepetitionDecoder, "Repetition", "RepB"),
    "repp": (RepetitionQubit, RepetitionDecoder, "Repetition", "RepP"),
}
PARAMS = {
    "xxzz": [{"d": 3, "T": 2}, {"d": (3, 5), "T": 2}, {"d": [3, 1], "T": 2}],
    "xzzx": [{"d": 3, "T": 2}, {"d": (1, 3), "T": 2}],
    "both": [{"d": (3, 3), "T": 2}],
    "repb": [{"d": 3, "T": 2}, {"d": (5, 1), "T": 2}, {"T": 2}, {"d": 3, "T": 2, "phase-flip-protected": False}],
    "repp": [{"d": 5, "T": 2, "phase-flip-protected": True}, {"T": 2, "phase-flip-protected": True}],
}
# more kinds for the ordered pairs only: equal numbers of qubits (or syndromes, or one side) in other arrangements
MORE = {
    "xxzz": [{"d": (5, 3), "T": 2}, {"d": (1, 15), "T": 2}, {"d": (9, 1), "T": 2}, {"d": (3, 3), "T": 1}],
    "xzzx": [{"d": (5, 3), "T": 2}, {"d": (3, 5), "T": 3}, {"d": (15, 1), "T": 2}],
    "repb": [{"d": 15, "T": 2}, {"d": 3, "T": 3}],
    "repp": [{"d": 9, "T": 2, "phase-flip-protected": True}],
}
BUILD = ["E", "S", "D", "R"]
USE_E = ["s0", "s9", "m0", "m9", "l0"]
USE_D = ["d0", "d9", "p0"]
USE_R = ["cx", "rs"]


def words(n):
    """Words whose uses refer to existing objects; 'E','S' build encoders, 'D' decoders, 'R' a register circuit."""
    def rec(w, e, d, r):
        if w:
            yield w
        if len(w) == n:
            return
        yield from rec(w + ("E",), e + 1, d, r)
        yield from rec(w + ("S",), e + 1, d, r)
        yield from rec(w + ("D",), e, d + 1, r)
        if not r:
            yield from rec(w + ("R",), e, d, 1)
        if e:
            for u in USE_E:
                if e > 1 or u[-1] == "0":
                    yield from rec(w + (u,), e, d, r)
        if d:
            for u in USE_D:
                if d > 1 or u[-1] == "0":
                    yield from rec(w + (u,), e, d, r)
        if r:
            for u in USE_R:
                yield from rec(w + (u,), e, d, r)
    yield from rec((), 0, 0, 0)


def cases(tier):
    n = 5 if tier == "quick" else 6
    heads = sorted({w for w in words(2) if len(w) == 2})
    pristine()
    for seq in product(range(len(every())), repeat=2):
        yield {"kinds": list(seq)}
    if tier == "thorough":
        for seq in product(range(len(kinds())), repeat=3):
            yield {"kinds": list(seq)}
    for fam, k in kinds():
        for how in product(["new", "add"], repeat=2 if tier == "quick" else 3):
            for count in (1, 2, 3):
                yield {"lists": [fam, k], "how": list(how), "n": count}
    for fam, plist in PARAMS.items():
        for k, p in enumerate(plist):
            for h in heads:
                # the last settings of a family get one letter less in the quick tier
                yield {"fam": fam, "k": k, "head": list(h), "len": n if k == 0 and fam in ("xxzz", "repb") or tier == "thorough" else n - 1}


def kinds():
    return [(fam, k) for fam in PARAMS for k in range(len(PARAMS[fam]))]


def every():
    """(family, parameters) of all kinds that meet in one process; the first ones are kinds()."""
    return [(fam, PARAMS[fam][k]) for fam, k in kinds()] + [(fam, p) for fam, ps in MORE.items() for p in ps]


SCRIPT = [("E", "s0", "m0", "l0"), ("D", "d0", "p0"), ("R", "cx", "rs"), ("S", "S", "s0", "m9")]
_PRISTINE = {}


def pristine():
    """What every kind of object does in a process that never built anything else (one forked child each)."""
    for x, (fam, par) in enumerate(every()):
        for i, w in enumerate(SCRIPT):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        out = execute(fam, par, w, True)
                    except Exception as e:
                        out = f"{type(e).__name__}: {e}"
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(wr)
            with os.fdopen(r, "rb") as f:
                _PRISTINE[x, i] = pickle.load(f)
            os.waitpid(pid, 0)


def code_of(fam, p):
    d = p.get("d", 3)
    if fam.startswith("rep"):
        d = d if isinstance(d, int) else max(d)
        return Code("RepB", d, 1) if fam == "repb" else Code("RepP", 1, d)
    dh, dw = (d, d) if isinstance(d, int) else d
    return Code("XXZZ", dh, dw)


def strings(c, T=2):
    """A few result strings with different hits (further rounds repeat the last one, fewer drop it)."""
    n = c.n
    full = [["0" * n, "0" * (n - 1), "0" * (n - 1)],
            ["1" + "0" * (n - 1), "0" * (n - 2) + "1", "0" * (n - 1)],
            ["0", "1" + "0" * (n - 2), "0" * (n - 2) + "1", "0" * (n - 1)]]
    return [" ".join((f + f[-1:] * T)[:T - 2 + len(f)]) for f in full]


def decode(dec, c, basis, m):
    out = []
    for s in strings(c, int(dec.params["T"])):
        v, hits = dec.parse_readout(s, basis)
        out.append((v, {k: list(map(tuple, h)) for k, h in hits.items()}))
        out.append(dec.correct_readout(s, basis))
        if m:
            out.append(dec.correct_readout(s, basis, err_prob=0.05))
    return out


def dec_state(dec):
    p = dec.params["d"]
    return (tuple(int(x) for x in p), int(dec.params["T"]),
            {k: (sorted(map(str, g.nodes())), len(g.edge_list())) for k, g in dec.S.items()})


def execute(fam, par, word, private, only=None):
    """Runs a word; `private` copies the parameters for every object.  Returns what every object did and is."""
    Q, D, ctype, _ = FAMS[fam]
    shared = copy.deepcopy(par)
    give = (lambda: copy.deepcopy(par)) if private else (lambda: shared)
    c = code_of(fam, par)
    basis = "X" if fam == "repp" else "Z"
    scirc = QuantumCircuit()
    encs, decs, outs = [], [], []
    tc = treg = None
    for w in word:
        if w in ("E", "S"):
            cls = Q
            if fam == "both" and len(encs) % 2:
                cls = XZZXQubit
            if w == "E":
                encs.append((cls(give(), name="q"), "own"))
            else:
                encs.append((cls(give(), name=f"q{len(encs)}", circ=scirc), "shared"))
        elif w == "D":
            decs.append(D(give()))
        elif w == "R":
            other = "XZZX" if fam == "both" else ctype
            treg = TopologicalRegister(ctypes=[ctype, other], params=[give(), give()])
            tc = TopologicalCircuit(treg)
        elif w == "cx":
            if private:
                tc.cx(0, 1, ctype, copy.deepcopy(par))
            else:
                tc.cx(0, 1)
        elif w == "rs":
            tc.stabilize(0)
            tc.measure_z(0)
            tc.stabilize(1)
        elif w[0] in "sml":
            q = encs[0 if w[1] == "0" else -1][0]
            {"s": q.stabilize, "m": q.readout_z, "l": q.lattice_readout_x}[w[0]]()
        elif w[0] == "d":
            outs.append(decode(decs[0 if w[1] == "0" else -1], c, basis, True))
        elif w[0] == "p":
            outs.append([decs[0].encoder.parse_readout(s, basis) for s in strings(c, int(decs[0].params["T"]))])
            decs[0].encoder.stabilize()
    own = [snap.circuit(q.circ) for q, k in encs if k == "own"]
    sizes = [{k: len(v) for k, v in q.lattice.qregisters.items()} for q, _ in encs]
    st = {"own": own, "sizes": sizes, "shared": snap.circuit(scirc), "out": outs,
          "decs": [dec_state(d) for d in decs],
          "final": [decode(d, c, basis, False) for d in decs]}
    if tc is not None:
        st["reg"] = snap.circuit(tc.circ)
    return st


_ALONE = {}


def alone(fam, k, kind, word):
    key = (fam, k, kind, word)
    if key not in _ALONE:
        _ALONE[key] = execute("xzzx" if kind == "E2" else fam, PARAMS[fam][k], word, True)
    return _ALONE[key]


def project(word):
    """[(kind, own word)] of the encoders on their own circuit and of the decoders."""
    encs, decs = [], []
    for w in word:
        if w in ("E", "S"):
            encs.append([w, ["E"]])
        elif w == "D":
            decs.append(["D"])
        elif w[0] in "sml" and w[-1] in "09":
            encs[0 if w[1] == "0" else -1][1].append(w[0] + "0")
        elif w[0] in "dp" and w[-1] in "09":
            decs[0 if w[1] == "0" else -1].append(w[0] + "0")
    return encs, decs


def in_sequence(seq, st):
    """Objects of unrelated kinds, one after the other in one process, each as if it were the only one."""
    for j, x in enumerate(seq):
        fam, par = every()[x]
        for i, w in enumerate(SCRIPT):
            st["states"] += 1
            st["transitions"] += len(w)
            st["traces"] += 1
            want = _PRISTINE[x, i]
            got = execute(fam, par, w, True)
            if got != want:
                before = [every()[y] for y in seq[:j]]
                return f"{fam} {par} {w} after objects of {before}: " + (
                    str(want) if isinstance(want, str) else
                    "; ".join(f"{a}: {got[a]} != {want[a]}" for a in got if got[a] != want[a]))[:800]
    return None


def from_lists(spec, st):
    """Registers built from the very same lists of types and params."""
    fam, k = spec["lists"]
    ctype, par, n = FAMS[fam][2], PARAMS[fam][k], spec["n"]
    if fam == "both":
        types = (["XXZZ", "XZZX"] * n)[:n]
    else:
        types = [ctype] * n
    pars = [copy.deepcopy(par)] * n
    mine = (list(types), len(pars))

    def build(how, types, pars):
        if how == "new":
            treg = TopologicalRegister(ctypes=types, params=pars)
        else:
            treg = TopologicalRegister()
            treg.add_tqubits("data", types, pars)
            treg.add_tqubits("other", types, pars)
        tc = TopologicalCircuit(treg)
        for i in range(treg.n):
            tc.stabilize(i)
            tc.measure_z(i)
        return treg, tc

    made = []
    for how in spec["how"]:
        st["states"] += 1
        st["transitions"] += n
        made.append((how,) + build(how, types, pars))
        if (list(types), len(pars)) != mine:
            return f"building a register changed the caller's lists to {types}, {len(pars)} params"
    for how, treg, tc in made:
        st["traces"] += 1
        _, ref = build(how, list(types), [copy.deepcopy(par) for _ in range(n)])
        if snap.circuit(tc.circ) != snap.circuit(ref.circ) or treg.n != ref.treg.n:
            return f"register ({how}) from shared lists differs from one from private copies"
    return None


def run_case(spec, st):
    if "kinds" in spec:
        if not _PRISTINE:
            pristine()
        return in_sequence(spec["kinds"], st)
    if "lists" in spec:
        return from_lists(spec, st)
    fam, k, head, n = spec["fam"], spec["k"], tuple(spec["head"]), spec["len"]
    par = PARAMS[fam][k]
    for w in words(n):
        if w[:2] != head or len(w) < 2:
            continue
        st["states"] += 1
        st["transitions"] += len(w)
        got = execute(fam, par, w, False)
        if any(x in w for x in ("S", "R", "cx")):
            st["traces"] += 1
            want = execute(fam, par, w, True)
            if got != want:
                bad = [x for x in got if got[x] != want.get(x)]
                return f"{w} with shared params {par}: {bad} differ from private copies: " + \
                       "; ".join(f"{x}: {got[x]} != {want.get(x)}" for x in bad)[:800]
        encs, decs = project(w)
        own = [(i, e) for i, e in enumerate(encs)]
        j = 0
        for i, (kind, ew) in own:
            ref = alone(fam, k, "E2" if fam == "both" and i % 2 else "E", tuple(ew))
            st["traces"] += 1
            if got["sizes"][i] != ref["sizes"][0]:
                return f"{w}: encoder {i} has size {got['sizes'][i]} instead of {ref['sizes'][0]}"
            if kind == "E":
                if got["own"][j] != ref["own"][0]:
                    return f"{w}: the circuit of encoder {i} differs from the one it builds alone"
                j += 1
        for i, dw in enumerate(decs):
            ref = alone(fam, k, "D", tuple(dw))
            st["traces"] += 1
            if got["decs"][i] != ref["decs"][0] or got["final"][i] != ref["final"][0]:
                return f"{w}: decoder {i} differs from the same decoder alone: {got['decs'][i][:2]}"
    return None
