"""
Stabilizer tableau with affine signs: one run represents *every* measurement branch and *every*
assignment of fault variables at once.

Rows 0..n-1 are destabilizers, rows n..2n-1 stabilizers, stored column-wise: for every qubit q,
``x[q]`` and ``z[q]`` are integers whose bit i says whether row i has an X / Z factor on q.
The sign of row i is (-1)**(bit i of ``r`` + <f[i], assignment>) where ``f[i]`` is a bit mask over the
GF(2) variables created so far (random measurement outcomes and fault variables).  Bit 0 of an affine
form is the constant 1, bit v (v>=1) is variable v.
"""


class NonAffine(Exception):
    """A classical condition is not affine in the variables; the explorer has to split on `var`."""

    def __init__(self, var):
        super().__init__(var)
        self.var = var


def parity(v):
    return v.bit_count() & 1


class Tableau:
    __slots__ = ("n", "x", "z", "r", "f", "nvars", "varkind", "fixed", "low")

    def __init__(self, n, fixed=None):
        self.n = n
        self.x = [1 << i for i in range(n)]
        self.z = [1 << (n + i) for i in range(n)]
        self.r = 0
        self.f = [0] * (2 * n)
        self.nvars = 0
        self.varkind = [None]  # index 0 unused (constant)
        self.fixed = fixed or {}
        self.low = (1 << n) - 1

    def copy(self):
        t = Tableau.__new__(Tableau)
        t.n, t.x, t.z, t.r, t.f = self.n, self.x[:], self.z[:], self.r, self.f[:]
        t.nvars, t.varkind, t.fixed, t.low = self.nvars, self.varkind[:], self.fixed, self.low
        return t

    # ---- variables -------------------------------------------------------------------------
    def new_var(self, kind):
        self.nvars += 1
        self.varkind.append(kind)
        v = self.nvars
        if v in self.fixed:
            return self.fixed[v]  # constant form 0/1
        return 1 << v

    # ---- gates -----------------------------------------------------------------------------
    def h(self, a):
        self.r ^= self.x[a] & self.z[a]
        self.x[a], self.z[a] = self.z[a], self.x[a]

    def s(self, a):
        self.r ^= self.x[a] & self.z[a]
        self.z[a] ^= self.x[a]

    def sdg(self, a):
        self.r ^= self.x[a] & ~self.z[a]
        self.z[a] ^= self.x[a]

    def X(self, a):
        self.r ^= self.z[a]

    def Z(self, a):
        self.r ^= self.x[a]

    def Y(self, a):
        self.r ^= self.x[a] ^ self.z[a]

    def cx(self, a, b):
        x, z = self.x, self.z
        self.r ^= x[a] & z[b] & ~(x[b] ^ z[a])
        x[b] ^= x[a]
        z[a] ^= z[b]

    def cz(self, a, b):
        self.h(b)
        self.cx(a, b)
        self.h(b)

    def swap(self, a, b):
        x, z = self.x, self.z
        x[a], x[b] = x[b], x[a]
        z[a], z[b] = z[b], z[a]

    def pauli_if(self, name, a, form):
        """Apply a Pauli on a iff the affine form is 1."""
        if not form:
            return
        if name == "x":
            m = self.z[a]
        elif name == "z":
            m = self.x[a]
        elif name == "y":
            m = self.x[a] ^ self.z[a]
        else:
            raise ValueError(name)
        if form & 1:
            self.r ^= m
        var = form & ~1
        if var:
            f = self.f
            while m:
                low = m & -m
                f[low.bit_length() - 1] ^= var
                m ^= low

    # ---- measurement -----------------------------------------------------------------------
    def measure(self, a, kind=None):
        """Z measurement of qubit a: returns the affine form of the outcome."""
        n, x, z, f = self.n, self.x, self.z, self.f
        xs = x[a] >> n
        if xs:
            p = n + (xs & -xs).bit_length() - 1
            pb = 1 << p
            M = x[a] & ~pb
            # multiply every row of M by row p
            if M:
                c0 = c1 = 0
                for q in range(n):
                    px = x[q] >> p & 1
                    pz = z[q] >> p & 1
                    if px:
                        xq, zq = x[q] & M, z[q] & M
                        if pz:
                            plus, minus = zq & ~xq, xq & ~zq
                            z[q] ^= M
                        else:
                            plus, minus = xq & zq, zq & ~xq
                        x[q] ^= M
                    elif pz:
                        xq, zq = x[q] & M, z[q] & M
                        plus, minus = xq & ~zq, xq & zq
                        z[q] ^= M
                    else:
                        continue
                    c1 ^= c0 & plus
                    c0 ^= plus
                    c1 ^= ~c0 & minus
                    c0 ^= minus
                self.r ^= c1 & M
                if self.r >> p & 1:
                    self.r ^= M
                fp = f[p]
                if fp:
                    m = M
                    while m:
                        low = m & -m
                        f[low.bit_length() - 1] ^= fp
                        m ^= low
            # destabilizer p-n := old stabilizer p ; stabilizer p := +-Z_a
            db = 1 << (p - n)
            keep = ~(db | pb)
            for q in range(n):
                xq, zq = x[q], z[q]
                x[q] = (xq & keep) | (db if xq & pb else 0)
                z[q] = (zq & keep) | (db if zq & pb else 0)
            z[a] |= pb
            form = self.new_var(kind or ("rand", a))
            rp = self.r >> p & 1
            self.r &= keep
            if rp:
                self.r |= db
            f[p - n] = f[p]
            if form & 1:
                self.r |= pb
            f[p] = form & ~1
            return form
        # deterministic: product of stabilizers selected by destabilizers anticommuting with Z_a
        S = (x[a] & self.low) << n
        return self._product_sign(S)

    def _product_sign(self, S):
        n, x, z, f = self.n, self.x, self.z, self.f
        form = parity(self.r & S)
        ph = 0  # power of i
        for q in range(n):
            xs, zs = x[q] & S, z[q] & S
            if xs and zs:
                xs >>= n
                zs >>= n
                # i^{x z} per row, (-1)^{z_i x_j, i<j}, i^{-xf zf}
                ph += (xs & zs).bit_count()
                pre = zs << 1  # exclusive prefix xor
                sh = 1
                while sh < n:
                    pre ^= pre << sh
                    sh <<= 1
                ph += 2 * (pre & xs).bit_count()
                if parity(xs) and parity(zs):
                    ph -= 1
        assert ph % 2 == 0
        if ph & 2:
            form ^= 1
        m = S
        while m:
            low = m & -m
            form ^= f[low.bit_length() - 1]
            m ^= low
        return form

    def reset(self, a):
        form = self.measure(a, ("reset", a))
        self.pauli_if("x", a, form)

    def is_z_deterministic(self, a):
        return not self.x[a] >> self.n

    # ---- observables -----------------------------------------------------------------------
    def expectation(self, px, pz):
        """
        Expectation of the Pauli with X support px and Z support pz (bit q = qubit q, both bits = Y):
        an affine form if it is +-1 (0 = +1), None if it is 0.
        """
        n, x, z = self.n, self.x, self.z
        anti = 0
        for q in range(n):
            if px >> q & 1:
                anti ^= z[q]
            if pz >> q & 1:
                anti ^= x[q]
        if anti >> n:
            return None
        S = (anti & self.low) << n
        form = self._product_sign(S)
        # _product_sign gives the sign of the product in the i^{xz} X^x Z^z normal form, i.e. of the
        # Hermitian Pauli itself (Y = i X Z).
        return form

    def canonical_stabilizers(self, qubits=None):
        """Row-reduced stabilizer group (hashable), signs included as forms."""
        n = self.n
        rows = []
        for i in range(n, 2 * n):
            px = pz = 0
            for q in range(n):
                px |= (self.x[q] >> i & 1) << q
                pz |= (self.z[q] >> i & 1) << q
            rows.append((px, pz, (self.r >> i & 1) ^ self.f[i]))
        return canonical_group(rows, n)


def mul(a, b):
    """Product of two commuting Hermitian Paulis given as (x, z, signform)."""
    ax, az, asg = a
    bx, bz, bsg = b
    ph = (ax & az).bit_count() + (bx & bz).bit_count() + 2 * (az & bx).bit_count()
    cx, cz = ax ^ bx, az ^ bz
    ph -= (cx & cz).bit_count()
    assert ph % 2 == 0
    return cx, cz, asg ^ bsg ^ (1 if ph & 2 else 0)


def canonical_group(rows, n):
    rows = list(rows)
    done = []
    for kind in (0, 1):
        for q in range(n):
            piv = None
            for k, row in enumerate(rows):
                if row[kind] >> q & 1 and (kind == 0 or row[0] == 0):
                    piv = k
                    break
            if piv is None:
                continue
            p = rows.pop(piv)
            rows = [mul(r, p) if r[kind] >> q & 1 and (kind == 0 or r[0] == 0) else r for r in rows]
            done = [mul(r, p) if r[kind] >> q & 1 else r for r in done]
            done.append(p)
    return tuple(done)
