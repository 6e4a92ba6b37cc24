"""
C17: the matching uses the documented weights and is a true optimum.

For every set of hits in bounds the real matching problem is built and compared, node by node and weight by weight,
with distances and shortest-chain counts obtained by breadth-first exploration of an independent fault graph; the
returned matching is checked pair by pair and its weight compared with an exhaustive search over all matchings.
"""
import math
from functools import lru_cache
from itertools import combinations

from ..codes import Code

LEVEL = "model_checking"
RULE = ("every set of at most h hits of every lattice x rounds x basis in bounds x error probabilities; states = (hits, p) "
        "problems, transitions = weights compared, evaluations = matchings compared with the exhaustive optimum")
ASSUMPTIONS = ["float weights are matched with a resolution of 1e-4 (as the code documents), so optimality is up to "
               "1e-4 per pair", "an extra helper node with weight-0 edges to boundary nodes may make the count even"]

PROBS = [None, 0.0, 1e-9, 0.001, 0.01, 0.05, 0.16, 0.4, 0.49, 0.55, 0.9]


def cases(tier):
    th = tier == "thorough"
    cfg = [("RepB", 3, 1, 1, 6), ("RepB", 3, 1, 4, 4), ("RepB", 5, 1, 2, 4), ("RepB", 9, 1, 1, 5), ("RepP", 1, 3, 1, 6),
           ("RepP", 1, 5, 2, 4), ("RepP", 1, 7, 1, 5), ("RepP", 1, 3, 3, 4),
           ("XXZZ", 3, 3, 1, 6), ("XXZZ", 3, 3, 2, 5), ("XXZZ", 3, 3, 3, 3), ("XXZZ", 3, 3, 5, 2), ("XXZZ", 3, 5, 1, 5),
           ("XXZZ", 5, 3, 1, 5), ("XXZZ", 3, 5, 2, 3), ("XXZZ", 5, 3, 2, 3), ("XXZZ", 5, 5, 1, 4), ("XXZZ", 5, 5, 2, 2),
           ("XXZZ", 1, 5, 2, 4), ("XXZZ", 5, 1, 2, 4), ("XXZZ", 7, 3, 1, 4), ("XXZZ", 3, 7, 1, 4), ("XXZZ", 7, 7, 1, 2),
           ("XXZZ", 1, 1, 1, 1), ("XXZZ", 3, 1, 3, 4)]
    for kind, dh, dw, T, h in cfg:
        c = Code(kind, dh, dw)
        for typ in "ZX":
            k = T * len(c.checks(typ))
            if not k or (kind != "XXZZ" and not c.has(typ)):
                continue
            if not th and kind == "XXZZ" and k > 8:
                h = min(h, 4 if k <= 12 else 3) if k <= 18 else 2
            for first in range(k):
                for p in PROBS + ([0.1, 0.25, 0.45] if th else []):
                    yield {"code": c.spec, "T": T, "typ": typ, "first": first, "max": h + 1 + th, "p": p}
    # far apart on large lattices: long distances, astronomically many shortest chains
    for kind, dh, dw, T, where in [
            ("XXZZ", 41, 41, 1, ("row", "column", "corners")), ("XXZZ", 3, 81, 1, ("row",)),
            ("XXZZ", 81, 3, 1, ("column",)), ("RepB", 301, 1, 1, ("column",)), ("RepP", 1, 301, 1, ("row",)),
            ("XXZZ", 9, 9, 9, ("row", "column", "corners"))]:
        for typ in "ZX":
            if Code(kind, dh, dw).checks(typ) and (kind == "XXZZ" or (kind == "RepB") == (typ == "Z")):
                for how in where:
                    for p in (None, 0.05):
                        yield {"code": [kind, dh, dw], "T": T, "typ": typ, "far": how, "p": p, "large": True}


def far(c, T, typ, how):
    """The two ends of the middle row or column of checks, or of the whole lattice, at the first and last time."""
    sites = sorted(c.checks(typ))
    if how != "corners":
        axis = 0 if how == "row" else 1
        lines = sorted({s[axis] for s in sites})
        sites = [s for s in sites if s[axis] == lines[len(lines) // 2]]
    return [(0,) + sites[0], (T - 1,) + sites[-1]]


class Graph:
    """Independent decoding graph: hits, boundary nodes, unit edges; distances and shortest-path counts."""

    def __init__(self, c, T, typ):
        sites = c.checks(typ)
        self.hits = [(t,) + s for t in range(T) for s in sites]
        adj = {v: set() for v in self.hits}
        self.flips = {}
        for t in range(T):
            for i in range(c.n):
                a = [(t,) + s for s in c.adjacent(typ, i)]
                if len(a) == 1:
                    r, col = c.pos(i)
                    b = (-1, 2 * r - a[0][1], 2 * col - a[0][2])
                    self.flips[b] = c.crosses(typ, i)
                    a.append(b)
                adj.setdefault(a[1], set()).add(a[0])
                adj[a[0]].add(a[1])
            if t:
                for s in sites:
                    adj[(t,) + s].add((t - 1,) + s)
                    adj[(t - 1,) + s].add((t,) + s)
        self.adj = adj
        self.virtual = sorted(self.flips)
        self.dist, self.count = {}, {}
        for s in self.hits:
            d, n = {s: 0}, {s: 1}
            q = [s]
            for u in q:
                for v in adj[u]:
                    if v not in d:
                        d[v] = d[u] + 1
                        n[v] = 0
                        q.append(v)
                    if d[v] == d[u] + 1:
                        n[v] += n[u]
            self.dist[s], self.count[s] = d, n

    def weight(self, a, b, p):
        """Documented weight between a hit and a hit or boundary node."""
        if a[0] == -1:
            a, b = b, a
        dist = self.dist[a][b]
        if not p:
            return -float(dist)
        if b[0] == -1:
            deg = sum(self.count[a][v] for v in self.virtual if self.dist[a][v] == dist)
        else:
            deg = self.count[a][b]
        return -(dist - math.log(deg) / math.log((1 - p) / p))


_G = {}


def graph(c, T, typ):
    key = (tuple(c.spec), T, typ)
    if key not in _G:
        _G.clear()
        _G[key] = Graph(c, T, typ)
    return _G[key]


def optimum(g, hits, p, W):
    """Best total weight for each readout-flip parity, boundary nodes used at most once."""
    virt = g.virtual

    @lru_cache(None)
    def rec(i, todo, used):
        if not todo:
            return (0.0, -math.inf)
        a = (todo & -todo).bit_length() - 1
        rest = todo & (todo - 1)
        best = [-math.inf, -math.inf]
        m = rest
        while m:
            b = (m & -m).bit_length() - 1
            m &= m - 1
            sub = rec(0, rest & ~(1 << b), used)
            w = W[(hits[a], hits[b])]
            for f in (0, 1):
                best[f] = max(best[f], w + sub[f])
        for k, v in enumerate(virt):
            if used >> k & 1:
                continue
            sub = rec(0, rest, used | 1 << k)
            w = W[(hits[a], v)]
            fl = int(g.flips[v])
            for f in (0, 1):
                best[f ^ fl] = max(best[f ^ fl], w + sub[f])
        return tuple(best)

    return rec(0, (1 << len(hits)) - 1, 0)


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def run_case(spec, st):
    c, T, typ, p = Code.of(spec["code"]), spec["T"], spec["typ"], spec["p"]
    g = graph(c, T, typ)
    dec = c.decoder(T)
    k = len(g.hits)
    if "far" in spec:
        return problem(dec, g, far(c, T, typ, spec["far"]), typ, p, st)
    f = spec["first"]
    for w in range(1, spec["max"] + 1):
        for rest in combinations(range(f + 1, k), w - 1):
            hits = [g.hits[i] for i in (f,) + rest]
            if len(rest) % 2:
                hits = hits[::-1]
            e = problem(dec, g, hits, typ, p, st)
            if e:
                return f"hits {hits}, p={p}: {e}"
    return None


def problem(dec, g, hits, typ, p, st):
    st["states"] += 1
    st["traces"] += 1
    W = {}
    for a in hits:
        for b in hits + g.virtual:
            if a != b:
                W[(a, b)] = g.weight(a, b, p)
    floats = [(float(h[0]), h[1], h[2]) for h in hits]  # as the parser reports them
    if hasattr(dec, "_make_error_graph"):
        eg = dec._make_error_graph(list(floats), typ, err_prob=p)
        e = check_graph(eg, g, hits, W, st)
        if e:
            return e
    best = optimum(g, hits, p, W)
    tol = 1e-9 if p is None else 2.2e-4 * len(hits)
    top = max(best)
    if hasattr(dec, "_make_error_graph") and hasattr(dec, "_run_mwpm"):
        m = dec._run_mwpm(eg, floats=p is not None)
        e = check_matching(m, hits, g, W, top, tol)
        if e:
            return e
        if hasattr(dec, "_run_mwpm_graph"):
            mg = dec._run_mwpm_graph(eg, floats=p is not None)
            e = check_drawable(mg, m, W)
            if e:
                return e
    if hasattr(dec, "_corrections"):
        e = check_matching(dec._corrections(list(floats), typ, err_prob=p), hits, g, W, top, tol)
        if e:
            return "corrections: " + e
    st["evaluations"] += 1
    other = "X" if typ == "Z" else "Z"
    v = dec.correct_readout({typ: list(floats), other: []}, typ, 0, err_prob=p)
    if v not in (0, 1) or best[v] < top - tol:
        return f"decoded with flip {v}, whose best matching weighs {best[v]} instead of {top}"
    return None


def check_graph(eg, g, hits, W, st):
    nodes = list(eg.nodes())
    if len(set(nodes)) != len(nodes):
        return "a node appears twice in the matching problem"
    real = {v for v in nodes if v[0] != -1}
    if real != set(hits):
        return f"the matching problem has hits {sorted(real)}"
    virt = {v for v in nodes if v[0] == -1}
    if not set(g.virtual) <= virt:
        return f"boundary nodes missing: {sorted(set(g.virtual) - virt)}"
    extra = virt - set(g.virtual)
    if len(extra) > 1 or len(nodes) % 2:
        return f"{len(nodes)} nodes, extra boundary nodes {sorted(extra)}"
    got = {}
    for a, b, w in eg.weighted_edge_list():
        u, v = eg[a], eg[b]
        got[(u, v)] = got[(v, u)] = float(w)
    for a in hits:
        for b in hits + g.virtual:
            if a == b:
                continue
            st["transitions"] += 1
            if (a, b) not in got:
                return f"no edge {a}-{b}"
            if not close(got[(a, b)], W[(a, b)]):
                return f"weight of {a}-{b} is {got[(a, b)]} instead of {W[(a, b)]}"
        for b in extra:
            if (a, b) in got:
                return f"the helper node is joined to the hit {a}"
    for a, b in combinations(sorted(virt), 2):
        if a in extra or b in extra:
            if got.get((a, b), 0) != 0:
                return f"helper edge {a}-{b} has weight {got[(a, b)]}"
        elif got.get((a, b)) != 0:
            return f"boundary nodes {a}-{b} have weight {got.get((a, b))} instead of 0"
    return None


def check_matching(m, hits, g, W, top, tol):
    seen = []
    total = 0.0
    for a, b in m:
        if a[0] == -1 and b[0] == -1:
            return f"boundary-boundary pair {a}-{b} reported"
        for v in (a, b):
            seen.append(v)
        if a[0] == -1:
            a, b = b, a
        if (a, b) not in W:
            return f"pair {a}-{b} is not part of the problem"
        total += W[(a, b)]
    if len(seen) != len(set(seen)):
        return f"a node is matched twice: {m}"
    if {v for v in seen if v[0] != -1} != set(hits):
        return f"matching {m} leaves hits alone"
    if total < top - tol:
        return f"matching {m} weighs {total}, optimum {top}"
    return None


def check_drawable(mg, m, W):
    pairs = {frozenset(x) for x in m}
    got = {}
    for a, b, w in mg.weighted_edge_list():
        got[frozenset((mg[a], mg[b]))] = float(w)
    if set(got) != pairs:
        return f"drawable graph has pairs {sorted(map(sorted, got))} instead of {sorted(map(sorted, pairs))}"
    if len(set(mg.nodes())) != len(mg.nodes()) or set(mg.nodes()) != {v for x in pairs for v in x}:
        return "drawable graph has other nodes than the matching"
    for x, w in got.items():
        a, b = sorted(x, key=lambda v: v[0] == -1)
        if not close(w, W[(a, b)]):
            return f"drawable graph shows weight {w} for {a}-{b} instead of {W[(a, b)]}"
    return None
