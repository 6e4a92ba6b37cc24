"""
C14: the decoder's syndrome graph is exactly the circuit's single-fault structure.

Every single data fault in every slot and every intermediate measurement fault is executed on the real circuit,
the real parser turns the result string into hits, and the resulting multiset of (hits, readout flip) is compared
in both directions with the edges of the real decoding graph.
"""
from collections import Counter

from ..codes import Code, all_codes
from ..mem import Memory

LEVEL = "model_checking"
RULE = ("every code x odd lattice in bounds x number of rounds x readout style x logical value; for each, every single "
        "data fault (x, y, z) in every slot and every intermediate measurement fault; states = graph nodes and edges "
        "compared, transitions = faults executed")
ASSUMPTIONS = ["boundary nodes with a negative row (Z) / column (X) are the readout-flipping side, as documented"]


def cases(tier):
    th = tier == "thorough"
    for c in all_codes(13 if th else 11, 169 if th else 121, 21 if th else 15):
        top = 6 if c.n <= 15 else 4 if c.n <= 25 else 3 if c.n <= 49 else 2
        if th:
            top += 3
        rounds = list(range(1, top + 1)) + ([8, 10, 12] if c.n <= 9 else [7] if c.n <= 15 else [])
        for T in sorted(set(rounds)):
            for typ in "ZX":
                if c.ctype == "Repetition" and not c.has(typ):
                    continue
                for style in "ml":
                    if style == "l" and (T > 3 or c.n > 25) and not th:
                        continue
                    yield {"code": c.spec, "T": T, "typ": typ, "style": style}


    # large lattices: the edges against the reference geometry (bound to the circuits by the cases above)
    large = [(23, 25), (33, 31), (45, 45), (3, 701), (701, 3), (5, 301), (51, 41)] + ([(61, 61)] if th else [])
    for dh, dw in large:
        for typ in "ZX":
            for T in (1, 2) if dh * dw <= 1600 else (1,):
                yield {"code": ["XXZZ", dh, dw], "T": T, "typ": typ, "large": True}
    for d in (101, 501, 1001, 1501):
        for T in (1, 2, 3) if d < 1000 else (1, 2) if d < 1500 or th else (1,):
            yield {"code": ["RepB", d, 1], "T": T, "typ": "Z", "large": True}
            yield {"code": ["RepP", 1, d], "T": T, "typ": "X", "large": True}
            yield {"code": ["XXZZ", d, 1], "T": T, "typ": "Z", "large": True}
    for d in (3, 5):
        for T in (20, 50, 101) + ((301,) if th else ()):
            for typ in "ZX":
                yield {"code": ["XXZZ", d, d], "T": T, "typ": typ, "large": True}


def reference(c, typ, T):
    """Hits and readout flip of every single fault, from the geometry alone."""
    want = Counter()
    at = {}
    for site in c.checks(typ):
        for a, b in c.support(site):
            at.setdefault(a * c.dw + b, []).append(site)
    for i in range(c.n):
        for t in range(T):
            hits = frozenset((t,) + s for s in at.get(i, ()))
            if hits:
                want[(hits, c.crosses(typ, i) and len(hits) == 1)] += 1
    for site in c.checks(typ):
        for t in range(T - 1):
            want[(frozenset([(t,) + site, (t + 1,) + site]), False)] += 1
    return want


def run_case(spec, st):
    if spec.get("large"):
        c, T, typ = Code.of(spec["code"]), spec["T"], spec["typ"]
        want = reference(c, typ, T)
        st["transitions"] += sum(want.values())
        return compare(c.decoder(T), c, typ, T, {h for hits, _ in want for h in hits}, want, st)
    c, T, typ, style = Code.of(spec["code"]), spec["T"], spec["typ"], spec["style"]
    dec = c.decoder(T)
    for value in (0, 1) if c.n <= 15 else (1,):
        mem = Memory(c, typ, value, T, style)
        base_v, base_h = dec.parse_readout(mem.string(0), typ)
        if base_v != value or any(base_h.get(k) for k in base_h):
            return f"fault-free run parses to {base_v}, {base_h}"
        branch = sum(1 << v for v in mem.rand)
        want = Counter()
        nodes = set()
        for kind in "dm":
            faults = [(k,) for k in mem.keys(kind)]
            if kind == "d":
                faults += [(k, k[:3] + ("z",)) for k in mem.keys(kind) if k[3] == "x"]
            for f in faults:
                st["transitions"] += 1
                st["traces"] += 1
                m = mem.mask(f)
                v, h = dec.parse_readout(mem.string(m), typ)
                v2, h2 = dec.parse_readout(mem.string(m ^ branch), typ)
                if (v, sorted(h[typ])) != (v2, sorted(h2[typ])):
                    return f"fault {f} is seen differently in another measurement branch"
                hits = frozenset(h[typ])
                flip = v != value
                nodes |= hits
                if kind == "d" and len(f) == 2:
                    continue  # y = x and z together; only its hits are looked at
                if not hits:
                    if flip and c.has(typ):
                        return f"undetected fault {f} flips the readout"
                    continue
                if len(hits) == 2 and flip and c.distance(typ) > 1:
                    # an edge between two hits may not carry a readout flip: the graph cannot express it
                    return f"fault {f} causes hits {sorted(hits)} and flips the readout"
                want[(hits, flip and len(hits) == 1)] += 1
        if want != reference(c, typ, T):
            return "the single faults of the circuits differ from the reference geometry"
        e = compare(dec, c, typ, T, nodes, want, st)
        if e:
            return e
    return None


def compare(dec, c, typ, T, nodes, want, st):
    g = dec.S[typ]
    geo = {(t,) + s for t in range(T) for s in c.checks(typ)}
    real = [v for v in g.nodes() if v[0] != -1]
    if len(set(g.nodes())) != len(g.nodes()):
        return "a node appears twice"
    if set(real) != geo:
        return f"hit nodes differ from the lattice: missing {sorted(geo - set(real))[:4]}, " \
               f"extra {sorted(set(real) - geo)[:4]}"
    if set(real) != nodes:
        return f"hits that have no node: {sorted(nodes - set(real))[:4]}; " \
               f"nodes that no single fault hits: {sorted(set(real) - nodes)[:4]}"
    st["states"] += len(real)
    got = Counter()
    for a, b, w in g.weighted_edge_list():
        u, v = g[a], g[b]
        if w != 1:
            return f"edge {u}-{v} has weight {w}"
        if u[0] == -1 and v[0] == -1:
            return f"boundary-boundary edge {u}-{v}"
        if u[0] == -1 or v[0] == -1:
            virt, hit = (u, v) if u[0] == -1 else (v, u)
            side = virt[1] < 0 if typ == "Z" else virt[2] < 0
            got[(frozenset([hit]), side)] += 1
        else:
            got[(frozenset([u, v]), False)] += 1
        st["states"] += 1
    if got != want:
        missing, extra = want - got, got - want
        return (f"{typ} graph, T={T}: faults without an edge " + show(missing) + "; edges without a fault " + show(extra))
    return None


def show(cnt):
    return str([(sorted(k), "flips" if f else "", n) for (k, f), n in sorted(cnt.items(), key=str)][:4])
