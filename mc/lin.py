"""GF(2) linear algebra on integer bit masks (bit 0 = constant 1 of an affine form)."""


class Basis:
    def __init__(self, vecs=()):
        self.piv = {}
        for v in vecs:
            self.add(v)

    def reduce(self, v):
        while v:
            b = v.bit_length() - 1
            p = self.piv.get(b)
            if p is None:
                return v
            v ^= p
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.piv[v.bit_length() - 1] = v
            return True
        return False

    def __len__(self):
        return len(self.piv)

    def __contains__(self, v):
        return self.reduce(v) == 0


def rank(vecs):
    return len(Basis(vecs))


def relations(forms):
    """
    All affine relations among the forms, canonically: the set of masks m (bit i+1 = form i, bit 0 =
    constant) with XOR of the selected forms = constant, as a row-reduced tuple.  Two lists of forms have
    the same joint distribution (each free variable an independent fair coin) iff relations are equal.
    """
    rows = []  # (variable part, combination mask incl. constant)
    piv = {}
    rels = []
    for i, f in enumerate(forms):
        comb = 1 << (i + 1)
        v = f & ~1
        c = f & 1
        comb ^= c
        while v:
            b = v.bit_length() - 1
            if b not in piv:
                piv[b] = (v, comb)
                break
            pv, pc = piv[b]
            v ^= pv
            comb ^= pc
        if not v:
            rels.append(comb)
    return rref(rels)


def rref(rows):
    piv = {}
    for r in rows:
        for b in sorted(piv, reverse=True):
            if r >> b & 1:
                r ^= piv[b]
        if r:
            b = r.bit_length() - 1
            for k in piv:
                if piv[k] >> b & 1:
                    piv[k] ^= r
            piv[b] = r
    return tuple(piv[b] for b in sorted(piv, reverse=True))


def outcomes(forms):
    """The set of joint values (bit i = form i) as a sorted tuple; all of them are equally likely."""
    const = sum((f & 1) << i for i, f in enumerate(forms))
    cols = {}
    for i, f in enumerate(forms):
        v = f & ~1
        while v:
            low = v & -v
            cols[low] = cols.get(low, 0) | 1 << i
            v ^= low
    span = {0}
    basis = Basis()
    for col in cols.values():
        if basis.add(col):
            span |= {x ^ col for x in span}
    return sorted(x ^ const for x in span)


def joint(runs, obs):
    """
    Joint distribution of the observed classical bits over all branches: canonical relations when the
    execution did not have to be split, else the explicit distribution.
    """
    runs = list(runs)
    if len(runs) == 1:
        return relations([runs[0].cl[b] for b in obs])
    return explicit([(len(r.tab.fixed), [r.cl[b] for b in obs]) for r in runs])


def explicit(parts):
    from fractions import Fraction

    dist = {}
    for nfixed, forms in parts:
        vals = outcomes(forms)
        for v in vals:
            dist[v] = dist.get(v, 0) + Fraction(1, len(vals) << nfixed)
    return tuple(sorted(dist.items()))


def same(runs, obs, want_forms=None, want_runs=None, want_obs=None):
    """Equality of two joint distributions, whichever of them had to be split."""
    runs = list(runs)
    if want_runs is None:
        wants = [(0, list(want_forms))]
    else:
        wants = [(len(r.tab.fixed), [r.cl[b] for b in want_obs]) for r in want_runs]
    gots = [(len(r.tab.fixed), [r.cl[b] for b in obs]) for r in runs]
    if len(wants) == 1 and len(gots) == 1:
        return relations(gots[0][1]) == relations(wants[0][1])
    return explicit(gots) == explicit(wants)
