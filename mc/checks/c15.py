"""
C15: decoding is minimum-weight for every possible syndrome.

Every subset of the hits of a lattice and round count is decoded by the real decoder; the reference explores the
state graph (set of hits, readout flip) breadth-first under single data and measurement faults and knows for
every syndrome which readout flip a minimum-weight explanation has.
"""
from itertools import combinations

import numpy as np

from ..codes import Code
from ..common import Timeout

LEVEL = "model_checking"
RULE = ("every subset of hits of every lattice x rounds with at most k hit locations, both raw values, both input "
        "orders, with the hits of the other basis present, without and with a vanishing error probability; states = "
        "states of the reference fault graph, transitions = its transitions, evaluations = real decodings, "
        "traces = syndromes decided")
ASSUMPTIONS = ["when both readout flips have a minimum-weight explanation either answer is right",
               "'sufficiently small' error probabilities: 1e-300 and 1e-60"]


def configs(limit):
    """[(code, T, typ)] with at most `limit` hit locations."""
    out = []
    for d in range(3, 16, 2):
        for T in range(1, 9):
            if (d - 1) * T <= limit:
                out.append((Code("RepB", d, 1), T, "Z"))
                out.append((Code("RepP", 1, d), T, "X"))
    for dh in range(1, 12, 2):
        for dw in range(1, 12, 2):
            c = Code("XXZZ", dh, dw)
            for typ in "ZX":
                n = len(c.checks(typ))
                for T in range(1, 9):
                    if n and n * T <= limit:
                        out.append((c, T, typ))
    return out


def cases(tier):
    th = tier != "quick"
    limit = 15 if th else 12
    for c, T, typ in configs(limit) + ([] if limit > 11 else [(Code("XXZZ", 5, 5), 1, "Z"), (Code("XXZZ", 5, 5), 1, "X"),
                                       (Code("XXZZ", 3, 3), 3, "Z"), (Code("XXZZ", 3, 3), 3, "X")]):
        k = T * len(c.checks(typ))
        parts = 1 << max(0, k - 6)
        for part in range(parts):
            yield {"code": c.spec, "T": T, "typ": typ, "part": part, "parts": parts, "k": k}
    # long histories and large lattices: every set of at most w hits
    big = [("XXZZ", 7, 7, 1, 2), ("XXZZ", 5, 5, 3, 2), ("XXZZ", 3, 3, 8, 2), ("RepB", 21, 1, 1, 3),
           ("RepP", 1, 21, 1, 3), ("RepB", 5, 1, 6, 3), ("XXZZ", 3, 9, 1, 3), ("XXZZ", 9, 3, 1, 3),
           ("XXZZ", 3, 3, 16, 2), ("RepB", 3, 1, 24, 2), ("RepP", 1, 3, 24, 2), ("XXZZ", 1, 3, 24, 2),
           ("XXZZ", 9, 9, 1, 2), ("XXZZ", 11, 11, 1, 2), ("XXZZ", 5, 5, 8, 2)]
    yield from many_cases(th)
    for kind, dh, dw, T, w in big:
        c = Code(kind, dh, dw)
        for typ in "ZX":
            if c.has(typ) and (kind == "XXZZ" or typ == ("Z" if kind == "RepB" else "X")):
                for first in range(T * len(c.checks(typ))):
                    yield {"code": c.spec, "T": T, "typ": typ, "few": w + (tier != "quick"), "first": first}


def many_cases(th):
    """Nearly all hits at once (or nearly none): lattices beyond the ones decided completely."""
    for c, T, typ in configs(19 if th else 17):
        k = T * len(c.checks(typ))
        if k > 12:
            yield {"code": c.spec, "T": T, "typ": typ, "many": 2 if k < 16 or th else 1}
    for d in (17, 21, 31, 41) + ((61, 81) if th else ()):
        yield {"code": ["RepB", d, 1], "T": 1, "typ": "Z", "line": True}
        yield {"code": ["RepP", 1, d], "T": 1, "typ": "X", "line": True}
    for d in (131, 261):  # long chains
        yield {"code": ["RepB", d, 1], "T": 1, "typ": "Z", "line": True, "ends": True, "large": True}
        yield {"code": ["RepP", 1, d], "T": 1, "typ": "X", "line": True, "ends": True, "large": True}
    for d in (19, 25):
        yield {"code": ["XXZZ", d, 1], "T": 1, "typ": "Z", "line": True}
        yield {"code": ["XZZX", 1, d], "T": 1, "typ": "X", "line": True}


def many(spec, c, T, typ, dec, other, noise, st):
    """Every set lacking at most `many` hits, and every run of consecutive hits."""
    ref, dist = distances(spec, c, T, typ, st)
    k = len(ref.nodes)
    full = (1 << k) - 1
    subs = {full ^ sum(1 << i for i in out) for w in range(spec["many"] + 1) for out in combinations(range(k), w)}
    subs |= {((1 << w) - 1) << i for w in range(3, k) for i in range(0, k - w + 1, 2)}
    subs |= {full & int("01" * 20, 2), full & int("10" * 20, 2), full & int("0110" * 10, 2)}
    for s in sorted(subs):
        hits = [ref.nodes[i] for i in range(k) if s >> i & 1]
        e = decide(dec, typ, other, noise, hits, int(dist[s << 1]), int(dist[s << 1 | 1]), st, quick=True)
        if e:
            return e
    return None


def line(spec, c, T, typ, dec, other, noise, st):
    """On a line every set of hits has exactly two explanations: a pattern of flips and its complement."""
    sites = sorted(c.checks(typ), key=lambda v: v[0 if typ == "Z" else 1])
    k = len(sites)
    full = (1 << k) - 1
    subs = {full} | {full ^ 1 << i for i in range(k)} | {full ^ 1 << i ^ 1 << i + 1 for i in range(0, k - 1, 3)}
    subs |= {((1 << w) - 1) << i for w in (1, 2, 3, 5, 8, 13, k // 2, k - 1) for i in range(0, k - w + 1, 3)}
    subs |= {full & int("01" * 60, 2), full & int("10" * 60, 2), full & int("0110" * 30, 2), full & int("001" * 40, 2)}
    if spec.get("ends"):  # one, two or three hits, near the ends, the middle and powers of two
        at = sorted({0, 1, 2, 63, 64, 65, 127, 128, 129, k // 2 - 1, k // 2, k // 2 + 1, k - 2, k - 1} & set(range(k)))
        subs = {sum(1 << i for i in s) for w in (1, 2, 3) for s in combinations(at, w) if w < 3 or sum(s) % 5 == 0 and k < 200}
    for s in sorted(subs):
        first = 0
        for i in range(k):
            first ^= (first >> i & 1 ^ s >> i & 1) << i + 1
        # `first` leaves data qubit 0, whose flip the logical readout sees, alone
        w = bin(first).count("1")
        st["states"] += 2
        st["transitions"] += k
        hits = [(0.0,) + sites[i] for i in range(k) if s >> i & 1]
        e = decide(dec, typ, other, noise, hits, w, c.n - w, st, quick=True)
        if e:
            return e
    return None


class Ref:
    """Single faults as (mask of hits, flip)."""

    def __init__(self, c, T, typ):
        sites = c.checks(typ)
        self.nodes = [(float(t),) + s for t in range(T) for s in sites]
        idx = {v: i for i, v in enumerate(self.nodes)}
        self.idx = idx
        gens = set()
        for t in range(T):
            for i in range(c.n):
                m = 0
                for s in c.adjacent(typ, i):
                    m ^= 1 << idx[(float(t),) + s]
                gens.add((m, c.crosses(typ, i)))
            if t + 1 < T:
                for s in sites:
                    gens.add((1 << idx[(float(t),) + s] | 1 << idx[(float(t + 1),) + s], False))
        self.gens = sorted(gens)


_DIST = {}


def distances(spec, c, T, typ, st):
    key = (tuple(c.spec), T, typ)
    if key in _DIST:
        return _DIST[key]
    ref = Ref(c, T, typ)
    k = len(ref.nodes)
    dist = np.full(2 << k, -1, dtype=np.int16)
    dist[0] = 0
    front = np.array([0])
    moves = [m << 1 | int(f) for m, f in ref.gens]
    d = 0
    trans = 0
    while len(front):
        d += 1
        nxt = []
        for m in moves:
            to = front ^ m
            trans += len(to)
            to = to[dist[to] < 0]
            to = np.unique(to)
            dist[to] = d
            nxt.append(to)
        front = np.concatenate(nxt)
    st["states"] += len(dist)
    st["transitions"] += trans
    _DIST.clear()
    _DIST[key] = (ref, dist)
    return _DIST[key]


def run_case(spec, st):
    c, T, typ = Code.of(spec["code"]), spec["T"], spec["typ"]
    dec = c.decoder(T)
    other = "X" if typ == "Z" else "Z"
    noise = [(0.0,) + s for s in c.checks(other)]
    if "line" in spec:
        return line(spec, c, T, typ, dec, other, noise, st)
    if "many" in spec:
        return many(spec, c, T, typ, dec, other, noise, st)
    if "few" in spec:
        return few(spec, c, T, typ, dec, other, noise, st)
    ref, dist = distances(spec, c, T, typ, st)
    k = len(ref.nodes)
    for sub in range(spec["part"], 1 << k, spec["parts"]):
        hits = [ref.nodes[i] for i in range(k) if sub >> i & 1]
        d0, d1 = int(dist[sub << 1]), int(dist[sub << 1 | 1])
        e = decide(dec, typ, other, noise, hits, d0, d1, st)
        if e:
            return e
    return None


def decide(dec, typ, other, noise, hits, d0, d1, st, quick=False):
    allowed = set()
    # a state may be unreachable (-1) only if no logical fault exists
    if d0 >= 0 and (d1 < 0 or d0 <= d1):
        allowed.add(0)
    if d1 >= 0 and (d0 < 0 or d1 <= d0):
        allowed.add(1)
    st["traces"] += 1
    if not hits:
        allowed = {0}
    for p in (None,) if quick and len(hits) > 20 else (None, 1e-60) if quick else (None, 1e-300, 1e-60):
        try:
            a = dec.correct_readout({typ: list(hits), other: []}, typ, 0, err_prob=p)
            b = dec.correct_readout({typ: list(hits), other: []}, typ, 1, err_prob=p)
            r = dec.correct_readout({typ: hits[::-1], other: list(noise)}, typ, logical_qubit_value=0, err_prob=p)
        except Timeout:
            raise
        except Exception as e:
            return f"decoding {hits} with err_prob={p} failed: {type(e).__name__}: {e}"
        st["evaluations"] += 3
        if a not in (0, 1) or b not in (0, 1) or a == b:
            return f"{hits}, err_prob={p}: raw values 0/1 are corrected to {a}/{b}"
        if a not in allowed:
            return (f"{hits}, err_prob={p}: corrected with flip {a}, but the lightest faults have flip "
                    f"{sorted(allowed)} (weight without flip {d0}, with {d1})")
        if r not in allowed:
            return f"{hits[::-1]} with other hits, err_prob={p}: flip {r} instead of {sorted(allowed)}"
    return None


# ---- few hits on large lattices: exact minimum weight by pairing over fault distances ----------------

_FEW = {}


def pair_tables(c, T, typ, st):
    key = (tuple(c.spec), T, typ)
    if key in _FEW:
        return _FEW[key]
    ref = Ref(c, T, typ)
    k = len(ref.nodes)
    adj = [[] for _ in range(k)]
    bnd = [[] for _ in range(k)]
    for m, f in ref.gens:
        b = [i for i in range(k) if m >> i & 1]
        if len(b) == 1:
            bnd[b[0]].append(int(f))
        elif len(b) == 2:
            adj[b[0]].append(b[1])
            adj[b[1]].append(b[0])
    dist = []
    for s in range(k):
        d = {s: 0}
        q = [s]
        for u in q:
            for v in adj[u]:
                st["transitions"] += 1
                if v not in d:
                    d[v] = d[u] + 1
                    q.append(v)
        dist.append(d)
    st["states"] += k
    # distance to the boundary on each side, from every hit
    side = [[min([d[u] + 1 for u in d if f in bnd[u]], default=10 ** 6) for f in (0, 1)] for d in dist]
    _FEW.clear()
    _FEW[key] = (ref, dist, side)
    return _FEW[key]


def best(hits, dist, side):
    """Minimum weights (without flip, with flip) over all ways to pair hits with hits or a boundary."""
    big = 10 ** 6
    if not hits:
        # a logical fault: boundary to boundary through some node
        return 0, min(s[0] + s[1] for s in side)
    a, rest = hits[0], hits[1:]
    res = [big, big]
    for f in (0, 1):
        sub = best(rest, dist, side)
        for g in (0, 1):
            res[f ^ g] = min(res[f ^ g], side[a][f] + sub[g])
    for i, b in enumerate(rest):
        sub = best(rest[:i] + rest[i + 1:], dist, side)
        for g in (0, 1):
            res[g] = min(res[g], dist[a].get(b, big) + sub[g])
    return res[0], res[1]


def few(spec, c, T, typ, dec, other, noise, st):
    ref, dist, side = pair_tables(c, T, typ, st)
    k = len(ref.nodes)
    f = spec["first"]
    for w in range(1, spec["few"] + 1):
        for rest in combinations(range(f + 1, k), w - 1):
            idx = (f,) + rest
            d0, d1 = best(idx, dist, side)
            e = decide(dec, typ, other, noise, [ref.nodes[i] for i in idx], d0, d1, st)
            if e:
                return e
    return None
