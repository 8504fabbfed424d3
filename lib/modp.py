"""Polynomials over free modules modulo a prime: a fast mirror of spec/ModPoly.tla.

Used to choose inputs of bounded cost for the TLA+ checks (never to judge):
the verdicts come from TLC.  A polynomial is a dict {(pos, e1, ..., en): c}.
"""
P = 32003


def tkey(order):
    """sort key of a module monomial (pos, e...) in GInv's orders"""
    base = order & 0x0f
    pot = order & 0xf0 == 0x20

    def key(m):
        e = m[1:]
        d = sum(e)
        if base == 1:
            k = tuple(e)
        elif base == 2:
            k = (d,) + tuple(-x for x in reversed(e))
        else:
            k = (-d,) + tuple(e)
        return (m[0],) + k if pot else k + (m[0],)
    return key


def lm(f, key):
    return max(f, key=key)


def divides(a, b):
    return a[0] == b[0] and all(x <= y for x, y in zip(a[1:], b[1:]))


def norm(f, p=P):
    return {m: c % p for m, c in f.items() if c % p}


class Budget(Exception):
    pass


class Ctx:
    def __init__(self, order, p=P, budget=None):
        self.key = tkey(order)
        self.p = p
        self.budget = budget
        self.used = 0

    def tick(self, k):
        self.used += k
        if self.budget is not None and self.used > self.budget:
            raise Budget()

    def monic(self, f):
        m = lm(f, self.key)
        inv = pow(f[m], -1, self.p)
        return {k: c * inv % self.p for k, c in f.items()}

    def axpy(self, f, c, s, g):
        """f - c * x^s * g"""
        self.tick(len(g))
        r = dict(f)
        for m, k in g.items():
            mm = (m[0],) + tuple(a + b for a, b in zip(m[1:], s))
            v = (r.get(mm, 0) - c * k) % self.p
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        return r

    def nfhead(self, f, G):
        """G: list of (lm, monic poly)"""
        f = dict(f)
        while f:
            m = lm(f, self.key)
            for u, g in G:
                if divides(u, m):
                    f = self.axpy(f, f[m], tuple(a - b for a, b in zip(m[1:], u[1:])), g)
                    break
            else:
                return f
        return f

    def nf(self, f, G):
        f = dict(f)
        r = {}
        while f:
            f = self.nfhead(f, G)
            if f:
                m = lm(f, self.key)
                r[m] = f.pop(m)
        return r

    def spoly(self, a, b):
        (u, f), (v, g) = a, b
        l = tuple(max(x, y) for x, y in zip(u[1:], v[1:]))
        z = self.axpy({}, self.p - 1, tuple(x - y for x, y in zip(l, u[1:])), f)
        return self.axpy(z, 1, tuple(x - y for x, y in zip(l, v[1:])), g)

    def groebner(self, F, ideal):
        G = []
        pairs = []

        def add(f):
            f = self.monic(f)
            u = lm(f, self.key)
            for i, (v, _) in enumerate(G):
                if v[0] == u[0]:
                    l = tuple(max(x, y) for x, y in zip(u[1:], v[1:]))
                    if ideal and sum(l) == sum(u[1:]) + sum(v[1:]):
                        continue
                    pairs.append((sum(l), i, len(G)))
            G.append((u, f))
        for f in F:
            f = self.nfhead(norm(f, self.p), G)
            if f:
                add(f)
        while pairs:
            pairs.sort(reverse=True)
            _, i, j = pairs.pop()
            h = self.nfhead(self.spoly(G[i], G[j]), G)
            if h:
                add(h)
        # minimal, reduced
        M = [g for i, g in enumerate(G) if not any((divides(h[0], g[0]) and (h[0] != g[0] or j < i)) for j, h in enumerate(G) if j != i)]
        out = []
        for i, (u, g) in enumerate(M):
            tail = {k: c for k, c in g.items() if k != u}
            r = self.nf(tail, M[:i] + M[i + 1:])
            r[u] = 1
            out.append((u, r))
        return sorted(out, key=lambda t: self.key(t[0]))


class QCtx:
    """the same over the integers, fraction-free: only to see how large the numbers become"""
    def __init__(self, order, budget):
        self.key, self.budget, self.used = tkey(order), budget, 0

    def prim(self, f):
        from math import gcd
        g = 0
        for c in f.values():
            g = gcd(g, c)
            if g == 1:
                return f
        return {k: c // g for k, c in f.items()}

    def cross(self, f, a, s, g, b):
        """a f - b x^s g"""
        r = {k: a * c for k, c in f.items()}
        n = 0
        for m, k in g.items():
            mm = (m[0],) + tuple(x + y for x, y in zip(m[1:], s))
            v = r.get(mm, 0) - b * k
            n += 1 + k.bit_length() // 64
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        self.used += n + len(f) * (1 + a.bit_length() // 64)
        if self.used > self.budget:
            raise Budget()
        return r

    def nf(self, f, G, tail=False):
        from math import gcd
        f, keep = dict(f), {}
        while f:
            m = lm(f, self.key)
            for u, g in G:
                if divides(u, m):
                    d = gcd(f[m], g[u])
                    f = self.cross(f, g[u] // d, tuple(x - y for x, y in zip(m[1:], u[1:])), g, f[m] // d)
                    if keep:
                        keep = {k: c * (g[u] // d) for k, c in keep.items()}
                    else:
                        f = self.prim(f)
                    break
            else:
                if not tail:
                    return f
                keep[m] = f.pop(m)
        return self.prim(keep)

    def groebner(self, F, ideal):
        G, pairs = [], []

        def add(f):
            u = lm(f, self.key)
            for i, (v, _) in enumerate(G):
                if v[0] == u[0]:
                    l = sum(max(x, y) for x, y in zip(u[1:], v[1:]))
                    if not (ideal and l == sum(u[1:]) + sum(v[1:])):
                        pairs.append((l, i, len(G)))
            G.append((u, f))
        for f in F:
            f = self.nf(f, G)
            if f:
                add(f)
        while pairs:
            pairs.sort(reverse=True)
            _, i, j = pairs.pop()
            (u, f), (v, g) = G[i], G[j]
            l = tuple(max(x, y) for x, y in zip(u[1:], v[1:]))
            up = {(m[0],) + tuple(x + y - z for x, y, z in zip(m[1:], l, u[1:])): c for m, c in f.items()}
            h = self.nf(self.cross(up, g[v], tuple(x - y for x, y in zip(l, v[1:])), g, f[u]), G)
            if h:
                add(h)
        M = [g for i, g in enumerate(G) if not any((divides(h[0], g[0]) and (h[0] != g[0] or j < i)) for j, h in enumerate(G) if j != i)]
        out = []
        for i, (u, g) in enumerate(M):
            R = M[:i] + M[i + 1:]
            out.append((u, self.nf(g, R, tail=True)))
        return out
