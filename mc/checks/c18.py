"""
C18: decoding is a pure function.

Every bounded history of decoder calls (decode strings or hits, parse, build and match graphs, draw, look-up tables,
use of the decoder's encoder, other decoders and encoders, callers that edit what they got back) is executed on the
real objects; every answer, during the history and in a probe sweep after it, must be the answer a fresh decoder
gives, and no argument may change.
"""
import copy
import hashlib
import json
import os
import pickle
import subprocess
import sys
from itertools import product

from ..codes import Code
from ..hist import sequences

LEVEL = "model_checking"
RULE = ("every word up to the bound over decoder calls (letters: decode string/hits with and without err_prob, parse, "
        "error graph + matchings, draw, look-up table, encoder use, other decoders), each followed by a probe of all "
        "inputs; all ordered pairs of syndromes decoded by one decoder; states = histories, transitions = calls, "
        "traces = answers compared with a fresh decoder")
ASSUMPTIONS = ["an argument counts as altered when its deep copy compares unequal afterwards"]

CFG = [
    (["XXZZ", 3, 3], 2, "Z"), (["XXZZ", 3, 3], 2, "X"), (["XXZZ", 3, 5], 1, "Z"), (["XXZZ", 3, 5], 1, "X"),
    (["RepB", 5, 1], 2, "Z"), (["RepP", 1, 5], 2, "X"), (["XXZZ", 5, 3], 3, "Z"), (["XXZZ", 1, 3], 2, "X"),
]


def strings(c, T):
    """Result strings with 0, 1, 2, 3 and many hits, both readout styles."""
    n = c.n - 1
    z = "0" * n
    one = "1" + "0" * (n - 1)
    last = "0" * (n - 1) + "1"
    mix = "".join("10"[i % 2] for i in range(n))
    chunks = [z, one, last, mix]
    out = []
    for k, first in enumerate(chunks):
        s = [chunks[(k * (t + 1) + t) % 4] for t in range(T + 1)]
        out.append(" ".join(["01"[k % 2]] + s))
    data = ["0" * c.n, "1" + "0" * (c.n - 1), "".join("110"[i % 3] for i in range(c.n))]
    for k, d in enumerate(data):
        out.append(" ".join([d] + [chunks[(k + t) % 4] for t in range(T)]))
    out.append(" ".join(["1"] + [z] * (T + 1)))
    return out


LETTERS = ["s1", "s3", "s5", "p2", "p6", "h3", "hp3", "pa4", "mut", "eg1", "eg5", "lut", "enc", "oth", "oenc", "bad",
           "fh", "rev", "oq", "cp"]
DRAW = ["s3", "p2", "eg1", "draw", "drawm", "h3"]


def cases(tier):
    th = tier == "thorough"
    for spec, T, typ in CFG:
        for a, b in product(LETTERS, repeat=2):
            yield {"code": spec, "T": T, "typ": typ, "head": [a, b], "len": 4 if th else 3}
    for spec, T, typ in [(["XXZZ", 3, 3], 1, "Z"), (["RepB", 5, 1], 1, "Z"), (["XXZZ", 3, 3], 2, "X")]:
        for w in sequences(DRAW, 3 if th else 2, 1):
            if "draw" in w or "drawm" in w:
                yield {"code": spec, "T": T, "typ": typ, "word": list(w)}
    for spec, T, typ in [(["RepB", 5, 1], 1, "Z"), (["RepP", 1, 5], 1, "X"), (["XXZZ", 3, 3], 1, "Z"),
                         (["XXZZ", 3, 3], 1, "X"), (["RepB", 3, 1], 3, "Z"), (["XXZZ", 1, 7], 1, "X"),
                         (["XXZZ", 3, 5], 1, "Z"), (["RepB", 7, 1], 1, "Z")] + \
            ([(["XXZZ", 3, 3], 2, "Z"), (["RepB", 5, 1], 2, "Z")] if th else []):
        for p in (None, 0.05, 0.3):
            yield {"code": spec, "T": T, "typ": typ, "pairs": p}
    for seed in range(16 if th else 8):
        yield {"process": seed}


PROC = [(["XXZZ", 3, 3], 2), (["XXZZ", 3, 5], 1), (["RepB", 7, 1], 1), (["RepP", 1, 5], 2), (["XXZZ", 1, 5], 2),
        (["XXZZ", 5, 5], 1)]


def answers(backwards):
    """Digests of the answers to every bounded set of hits, and of the parsed strings, of new decoders."""
    out = []
    for spec, T in PROC[::-1] if backwards else PROC:
        c = Code.of(spec)
        got = []
        for typ in "XZ" if backwards else "ZX":
            nodes = [(float(t),) + s for t in range(T) for s in c.checks(typ)]
            if not nodes:
                continue
            dec = c.decoder(T)
            for p in (None, 0.05):
                for m in range(1 << min(len(nodes), 8)):
                    hits = [n for i, n in enumerate(nodes) if m >> i % 8 & 1]
                    got.append(str(dec.correct_readout({typ: hits}, typ, m & 1, err_prob=p)))
            for s in strings(c, T):
                got.append(repr(norm(dec.parse_readout(s, typ))))
                got.append(repr([dec.correct_readout(s, typ, err_prob=p) for p in (None, 0.05)]))
                got.append(repr([dec.correct_readout_look_up_table(s, typ) for _ in (0, 1)
                                 if not dec.set_look_up_table(typ, 0, {s: 2}) and
                                 not dec.set_look_up_table(typ, 1, {s: 1})]))
            out.append([spec, T, typ, len(got), hashlib.sha256("".join(got).encode()).hexdigest()])
            got = []
    return sorted(out)


def process(seed, st):
    """A new process with the given seed of the built-in hash answers as this one."""
    r = subprocess.run([sys.executable, "-c",
                        "import json; from mc.checks.c18 import answers; print(json.dumps([list({'X', 'Z'}), "
                        f"answers({bool(seed % 2)})]))"],
                       env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True, timeout=140)
    if r.returncode:
        return f"a process with PYTHONHASHSEED={seed} fails: {r.stderr[-1500:]}"
    order, got = json.loads(r.stdout.strip().splitlines()[-1])
    want = answers(False)
    st["states"] += 1
    st["set order " + "".join(order)] += 1
    for a, b in zip(want, got):
        st["traces"] += a[3]
        st["transitions"] += a[3]
        if a != b:
            return f"a process with PYTHONHASHSEED={seed} decodes {a[:3]} differently"
    return None if len(want) == len(got) else "other answers"


class Env:
    def __init__(self, c, T, typ):
        self.c, self.T, self.typ = c, T, typ
        self.dec = c.decoder(T)
        self.others = None
        self.strings = strings(c, T)


_WANT = {}


def fresh(c, T, typ):
    """Answers of a decoder that has never been used, one fresh decoder per question."""
    key = (tuple(c.spec), T, typ)
    if key not in _WANT:
        w = {}
        for i, s in enumerate(strings(c, T)):
            w["pa", i] = norm(c.decoder(T).parse_readout(s, typ))
            w["s", i] = c.decoder(T).correct_readout(s, typ)
            w["p", i] = c.decoder(T).correct_readout(s, typ, err_prob=0.05)
            v, h = c.decoder(T).parse_readout(s, typ)
            w["eg", i] = matching(c.decoder(T), h[typ], typ)
            w["rev", i] = c.decoder(T).correct_readout({typ: h[typ][::-1]}, typ, v, err_prob=0.05)
        _WANT[key] = w
    return _WANT[key]


def norm(x):
    v, h = x
    return v, {k: [tuple(map(float, n)) for n in hs] for k, hs in h.items()}


def shape(g):
    return [str(v) for v in g.nodes()], sorted((a, b, float(w)) for a, b, w in g.weighted_edge_list())


def matching(dec, hits, typ):
    if not hasattr(dec, "_make_error_graph") or not hasattr(dec, "_run_mwpm"):
        return None
    out = []
    for p in (None, 0.05):
        g = dec._make_error_graph(hits, typ, err_prob=p)
        before = shape(g)
        m = dec._run_mwpm(g, floats=p is not None)
        for _ in range(2 if hasattr(dec, "_run_mwpm_graph") else 0):
            drawn = dec._run_mwpm_graph(g, p is not None)
            again = dec._run_mwpm(g, floats=p is not None)
            if len(again) != len(m) or drawn.num_edges() != len(m):
                raise AssertionError(f"matching one error graph again gives {again} instead of {m}")
        if shape(g) != before:
            raise AssertionError(f"matching changed the error graph of {hits}")
        nodes = sorted((tuple(map(float, v)) for v in g.nodes()))
        weights = sorted(round(float(w), 9) for _, _, w in g.weighted_edge_list())
        hv = sorted(sorted(tuple(map(float, v)) for v in pr if v[0] != -1) for pr in m)
        out.append((nodes, weights, hv, dec._run_mwpm_graph(g, p is not None).num_edges()
                    if hasattr(dec, "_run_mwpm_graph") else len(m)))
    return out


def run_case(spec, st):
    if "process" in spec:
        return process(spec["process"], st)
    c, T, typ = Code.of(spec["code"]), spec["T"], spec["typ"]
    if "pairs" in spec:
        return pairs(c, T, typ, spec["pairs"], st)
    want = fresh(c, T, typ)
    if "word" in spec:
        return history(c, T, typ, spec["word"], want, st)
    for tail in sequences(LETTERS, spec["len"] - 2):
        word = tuple(spec["head"]) + tail
        e = history(c, T, typ, word, want, st)
        if e:
            return f"{word}: {e}"
    return None


def history(c, T, typ, word, want, st):
    env = Env(c, T, typ)
    st["states"] += 1
    for w in word:
        st["transitions"] += 1
        e = act(env, w, want, st)
        if e:
            return f"{w}: {e}"
    dec = env.dec
    for i in (0, 2, 3, 4, 6) if len(word) > 2 else range(len(env.strings)):
        s = env.strings[i]
        st["traces"] += 2
        got = dec.correct_readout(s, typ)
        if got != want["s", i]:
            return f"afterwards {s!r} decodes to {got} instead of {want['s', i]}"
        if len(word) <= 2 or i == 3:
            got = dec.correct_readout(s, typ, err_prob=0.05)
            if got != want["p", i]:
                return f"afterwards {s!r} with err_prob decodes to {got} instead of {want['p', i]}"
            if norm(dec.parse_readout(s, typ)) != want["pa", i]:
                return f"afterwards {s!r} parses to {dec.parse_readout(s, typ)}"
    return None


def act(env, w, want, st):
    dec, typ, T, c = env.dec, env.typ, env.T, env.c
    st["traces"] += 1
    name = w.rstrip("0123456789")
    i = int(w[len(name):] or 0)
    s = env.strings[i]
    if name == "s":
        got = dec.correct_readout(s, typ)
        return None if got == want["s", i] else f"{s!r} decodes to {got} instead of {want['s', i]}"
    if name == "p":
        got = dec.correct_readout(s, typ, err_prob=0.05)
        return None if got == want["p", i] else f"{s!r} decodes to {got} instead of {want['p', i]}"
    if name in ("h", "hp"):
        v, h = dec.parse_readout(s, typ)
        before = copy.deepcopy(h)
        for again in (0, 1):
            got = dec.correct_readout(h, typ, logical_qubit_value=v, err_prob=0.05 if name == "hp" else None)
            if got != want["p" if name == "hp" else "s", i]:
                return f"the hits of {s!r} decode to {got}, the string to {want['s', i]}"
            if h != before:
                return f"decoding changed the caller's hits: {before} -> {h}"
        return None
    if name == "fh":
        # hits as the caller's own objects: tuples of floats in a fresh dict with the graph's keys only
        v, h = dec.parse_readout(env.strings[3], typ)
        mine = {typ: [tuple(x) for x in h[typ]]}
        ref = copy.deepcopy(mine)
        got = dec.correct_readout(mine, typ, v)
        if mine != ref:
            return f"decoding changed the caller's dictionary: {ref} -> {mine}"
        return None if got == want["s", 3] else f"hits {mine} decode to {got} instead of {want['s', 3]}"
    if name == "rev":
        # the same hits in another order, as a caller may list them
        for k in (3, 5):
            v, h = dec.parse_readout(env.strings[k], typ)
            mine = {typ: [tuple(x) for x in h[typ]][::-1]}
            ref = copy.deepcopy(mine)
            got = dec.correct_readout(mine, typ, v, err_prob=0.05)
            if mine != ref:
                return f"decoding changed the caller's hits: {ref} -> {mine}"
            if got != want["rev", k]:
                return f"hits {mine} decode to {got} instead of {want['rev', k]}"
        return None
    if name == "oq":
        # this decoder decodes the other basis, too
        other = "X" if typ == "Z" else "Z"
        for k in (1, 3, 5) if other in dec.S else ():
            for p in (None, 0.05):
                v, h = dec.parse_readout(env.strings[k], other)
                dec.correct_readout(h, other, v, err_prob=p)
        return None
    if name == "pa":
        got = norm(dec.parse_readout(s, typ))
        return None if got == want["pa", i] else f"{s!r} parses to {got}"
    if name == "mut":
        # the caller edits what the parser returned; that is nobody else's business
        for k in (3, 5):
            v, h = dec.parse_readout(env.strings[k], typ)
            for lst in h.values():
                lst.clear()
                lst.append((0.0, 9.5, 9.5))
            h.clear()
        return None
    if name == "eg":
        v, h = dec.parse_readout(s, typ)
        mine = [tuple(x) for x in h[typ]]
        ref = list(mine)
        got = matching(dec, mine, typ)
        if mine != ref:
            return f"building the error graph changed the caller's list to {mine}"
        return None if got == want["eg", i] else f"matching of {mine} differs from a fresh decoder"
    if name == "lut":
        t0, t1 = {env.strings[1]: 3, env.strings[2]: 1}, {env.strings[1]: 1, env.strings[2]: 5}
        r0, r1 = dict(t0), dict(t1)
        dec.set_look_up_table(typ, 0, t0)
        dec.set_look_up_table(typ, 1, t1)
        a = dec.correct_readout_look_up_table(env.strings[1], typ)
        b = dec.correct_readout_look_up_table(env.strings[2], typ)
        dec.correct_readout_look_up_table(env.strings[1], typ)
        if (t0, t1) != (r0, r1):
            return "look-up decoding changed the caller's tables"
        return None if (a, b) == (0, 1) else f"look-up answers {(a, b)} instead of (0, 1)"
    if name == "enc":
        q = dec.encoder
        q.reset_z(), q.stabilize(), q.x(), q.readout_z(), q.lattice_readout_z()
        got = norm(q.parse_readout(s, typ))
        return None if got == want["pa", 0] else f"the decoder's encoder parses {s!r} to {got}"
    if name == "oth":
        # other decoders: same params, other rounds, other sizes, other family
        others = [c.decoder(T), c.decoder(T + 1), Code(c.kind, c.dh + 2 * (c.dh > 1), c.dw + 2 * (c.dw > 1)).decoder(T),
                  Code("RepP" if c.kind == "RepB" else "RepB", *((1, 3) if c.kind == "RepB" else (3, 1))).decoder(1),
                  Code("XXZZ", 3, 3).decoder(1)]
        others[0].correct_readout(env.strings[3], typ, err_prob=0.05)
        others[0].set_look_up_table(typ, 1, {env.strings[1]: 7})
        z = "0" * (c.n - 1)
        others[1].correct_readout(" ".join(["1"] + [z, "1" + z[1:]] + [z] * T), typ)
        others[4].correct_readout("0 10000001 00000000", "Z")
        others[3].parse_readout("1 01 10", "Z")
        env.others = others
        got = others[0].correct_readout(env.strings[2], typ)
        return None if got == want["s", 2] else f"another decoder decodes {env.strings[2]!r} to {got}"
    if name == "cp":
        # a copy of the used decoder is as good as the original, and independent of it
        for how in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))):
            try:
                twin = how(dec)
            except Exception:  # nothing promises that decoders can be copied
                continue
            for k in (3, 5):
                got = [twin.correct_readout(env.strings[k], typ), twin.correct_readout(env.strings[k], typ, err_prob=0.05),
                       norm(twin.parse_readout(env.strings[k], typ))]
                if got != [want["s", k], want["p", k], want["pa", k]]:
                    return f"a copy of the decoder answers {got} to {env.strings[k]!r}"
        return None
    if name == "oenc":
        q = c.qubit()
        q.stabilize(), q.stabilize(), q.readout_z()
        got = norm(q.parse_readout(env.strings[5], typ))
        return None if got == want["pa", 5] else f"an encoder parses {env.strings[5]!r} to {got}"
    if name == "bad":
        # refused inputs leave nothing behind
        for args in (("0", "nosuch"), ({typ: [(99.0, 0.5, 0.5), (0.0, 9.5, 9.5)]}, typ, 0)):
            try:
                dec.correct_readout(*args)
            except Exception:
                pass
        return None
    if name in ("draw", "drawm"):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        v, h = dec.parse_readout(env.strings[3], typ)
        ref = copy.deepcopy(h)
        graphs = [dec.S[typ]]
        if name == "drawm" and hasattr(dec, "_make_error_graph"):
            eg = dec._make_error_graph(h[typ], typ)
            graphs = [eg, dec._run_mwpm_graph(eg)]
        for g in graphs:
            shape = (sorted(map(str, g.nodes())), sorted(map(str, g.weighted_edge_list())))
            try:
                dec.draw(g)
            except Exception:
                # drawing itself (3D axes of this matplotlib) is not what is decided here
                pass
            if (sorted(map(str, g.nodes())), sorted(map(str, g.weighted_edge_list()))) != shape:
                return "drawing changed the graph"
        plt.close("all")
        return None if h == ref else "drawing changed the hits"
    raise KeyError(name)


def pairs(c, T, typ, p, st):
    """One decoder decodes every ordered pair of syndromes; every answer as from a fresh decoder."""
    nodes = [(float(t),) + s for t in range(T) for s in c.checks(typ)]
    k = len(nodes)
    other = "X" if typ == "Z" else "Z"
    subs = [[nodes[i] for i in range(k) if m >> i & 1] for m in range(1 << k)]
    want = [c.decoder(T).correct_readout({typ: list(h), other: []}, typ, 0, err_prob=p) for h in subs]
    dec = c.decoder(T)
    n = len(subs)
    for a in range(n):
        st["states"] += 1
        for b in range(a, n):
            for x in (a, b):  # a b a b' ... covers both orders
                st["transitions"] += 1
                st["traces"] += 1
                got = dec.correct_readout({typ: subs[x], other: []}, typ, 0, err_prob=p)
                if got != want[x]:
                    return f"after other decodings {subs[x]} gives flip {got} instead of {want[x]}"
    for m in range(n):
        if subs[m] != [nodes[i] for i in range(k) if m >> i & 1]:
            return "decoding changed the caller's lists"
    return None
