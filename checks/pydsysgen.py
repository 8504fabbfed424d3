"""Differential and difference systems with functions and parameters for coefficients.
An expression is {(c, derivative, exponents of the coefficient): integer}."""
import random, itertools
import pysysgen
ORDERS = [0x12, 0x12, 0x12, 0x22, 0x11, 0x21]
P = 32003

def add(f, g, k=1):
    r = dict(f)
    for m, c in g.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r
def up(t, v, d=1): return t[:v] + (t[v] + d,) + t[v + 1:]
def prol(f, v, diff):
    r = {}
    for (c, d, e), k in f.items():
        if c >= 0 or not diff:
            m = (c, up(d, v), e); r[m] = r.get(m, 0) + k
        if diff and e[v]:
            m = (c, d, up(e, v, -1)); r[m] = r.get(m, 0) + k * e[v]
    return {m: c for m, c in r.items() if c}
def times(f, e, k):                       # by a monomial of the coefficients
    return {(c, d, tuple(x + y for x, y in zip(ee, e))): k * q for (c, d, ee), q in f.items()}
def okey(order, c, d):
    k = d if order % 16 == 1 else (sum(d),) + d
    return (c,) + k if order // 16 == 2 else k + (c,)
def row(f, pt):
    r = {}
    for (c, d, e), k in f.items():
        for x, y in zip(e, pt): k = k * pow(y, x, P) % P
        r[(c, d)] = (r.get((c, d), 0) + k) % P
    return {m: c for m, c in r.items() if c}
class Span:
    def __init__(self, order): self.o, self.pv = order, {}
    def lead(self, r): return max(r, key=lambda m: okey(self.o, *m))
    def red(self, r):
        r = dict(r)
        while r:
            l = self.lead(r)
            if l not in self.pv: return r
            c = r[l]
            for m, k in self.pv[l].items():
                r[m] = (r.get(m, 0) - c * k) % P
                if not r[m]: del r[m]
        return r
    def add(self, r):
        r = self.red(r)
        if r:
            i = pow(r[self.lead(r)], P - 2, P)
            self.pv[self.lead(r)] = {m: c * i % P for m, c in r.items()}
        return bool(r)
def order_of(f): return max([sum(d) for (c, d, e) in f] or [0])
def reference(gens, order, n, diff, rnd, cap):
    """leading derivatives of the system from prolongations up to order cap, with
    the order at which each minimal one appears; None: the unit or too much"""
    np_ = len(next(iter(gens[0]))[2])
    pt = [rnd.randrange(2, P) for _ in range(np_)]
    S, seen, lv = Span(order), {}, [{(0,) * n: g} for g in gens]
    for N in range(cap + 1):
        for j, g in enumerate(gens):
            if order_of(g) > N: continue
            for f in lv[j].values(): S.add(row(f, pt))
            nxt = {}
            for u, f in lv[j].items():
                fv = next((v for v in range(n) if u[v]), n - 1)
                for v in range(fv + 1): nxt[up(u, v)] = prol(f, v, diff)
            lv[j] = nxt
        if len(S.pv) > 400: return None
        for m in S.pv: seen.setdefault(m, N)
    mins = [m for m in seen if not any(x != m and x[0] == m[0] and all(a <= b for a, b in zip(x[1], m[1])) for x in seen)]
    if any(m[0] == -1 for m in mins): return None
    return {m: seen[m] for m in mins}

def coefs(rnd, np_, mx):
    e = [0] * np_
    for _ in range(rnd.randrange(mx + 1)): e[rnd.randrange(np_)] += 1
    return tuple(e)
def num(rnd): return rnd.choice([1, 1, 1, -1, -1, 2, -2, 3, 5, -7])
def rexpr(rnd, n, K, np_, terms, mxd, mxc):
    f = {}
    for _ in range(rnd.randrange(1, terms + 1)):
        d = [0] * n
        for _ in range(rnd.randrange(mxd + 1)): d[rnd.randrange(n)] += 1
        m = (rnd.randrange(K), tuple(d), coefs(rnd, np_, mxc) if np_ else ())
        f[m] = num(rnd)
    return f
def apply(op, f, n, diff):
    """op: {(d, e): k} applied to the expression f"""
    r = {}
    for (d, e), k in op.items():
        g = f
        for v in range(n):
            for _ in range(d[v]): g = prol(g, v, diff)
        r = add(r, times(g, e, k))
    return r
def conjugate(rnd, gens, n, np_, diff):
    """constant coefficients, the derivations replaced by other commuting ones"""
    z = (0,) * n
    gauge = rnd.random() < .6
    if gauge:                              # D_v = d_v + (derivative of a polynomial)
        phi = [(coefs(rnd, n, 2), num(rnd)) for _ in range(rnd.randrange(1, 3))]
        def act(v, f):
            r = prol(f, v, True)
            for e, k in phi:
                if e[v]: r = add(r, times(f, tuple(up(e, v, -1)) + (0,) * (np_ - n), k * e[v]))
            return r
    else:                                  # D_a = d_a + x_a d_b, the others unchanged
        if n < 2: return None
        a, b = rnd.sample(range(n), 2); s = rnd.choice([1, 2, -1])
        def act(v, f):
            r = prol(f, v, True)
            if v == a: r = add(r, times(prol(f, b, True), up((0,) * np_, a), s))
            return r
    out = []
    for g in gens:
        r = {}
        for (c, d, e), k in g.items():
            f = {(c, z, (0,) * np_): 1}
            for v in range(n):
                for _ in range(d[v]): f = act(v, f)
            r = add(r, times(f, e, k))
        if r: out.append(r)
    return out

def system(rnd):
    while True:
        cls = rnd.choice(["diff"] * 5 + ["schem", "schem", "poly"])
        diff = cls == "diff"
        n, K = rnd.choice([1, 2, 2, 2, 3, 3]), rnd.choice([1, 1, 1, 2])
        x = rnd.choice([0, 0, 1]) if diff else rnd.choice([1, 1, 2])
        np_ = (n if diff else 0) + x
        kind = rnd.choice(["conj", "conj", "rand", "rand", "left", "fixed"]) if diff else rnd.choice(["rand", "rand", "left"])
        order = rnd.choice(ORDERS)
        z, ze = (0,) * n, (0,) * np_
        inh = None
        if kind == "fixed":
            y = lambda v, d=1: up(ze, v, d)
            if n == 3 and K == 1:
                gens = rnd.choice([
                    [{(0, (2, 0, 0), ze): 1, (0, (0, 2, 0), y(2)): 1}, {(0, (0, 0, 2), ze): 1}],
                    [{(0, (2, 0, 0), ze): 1, (0, (0, 0, 1), y(1)): 1}, {(0, (0, 2, 0), ze): 1}],
                    [{(0, (1, 0, 0), ze): 1, (0, (0, 0, 1), y(1)): 1}, {(0, (0, 1, 0), ze): 1, (0, (0, 0, 1), y(0)): -1}],
                    [{(0, (1, 0, 0), y(1)): 1, (0, (0, 1, 0), y(0)): -1}, {(0, (0, 1, 0), y(2)): 1, (0, (0, 0, 1), y(1)): -1}]])
            elif n == 2 and K == 1:
                gens = rnd.choice([[{(0, (2, 0), ze): 1, (0, (0, 0), y(0)): -1}], [{(0, (2, 0), ze): 1, (0, (0, 1), y(0)): 1}, {(0, (0, 2), ze): 1}],
                                   [{(0, (1, 0), y(0)): 1, (0, (0, 1), y(1)): 1, (0, z, ze): -3}, {(0, (0, 3), ze): 1}],
                                   [{(0, (1, 0), ze): 1, (0, z, y(1)): -1}, {(0, (0, 1), ze): 1, (0, z, y(0)): -1}]])
            elif n == 2: gens = [{(0, (1, 0), ze): 1, (1, (0, 1), y(0)): -1}, {(0, (0, 1), ze): 1, (1, (1, 0), y(1)): rnd.choice([1, -1])}]
            elif n == 3: continue
            else: gens = [{(0, (2,), ze): 1, (0, (0,), y(0)): -1}, {(0, (3,), ze): 1, (0, (1,), y(0)): -1}][:K] + [{(K - 1, (4,), y(0)): 1}]
        elif kind == "conj":
            base = [rexpr(rnd, n, K, 0, 3, 2, 0) for _ in range(rnd.choice([1, 2, 2, 3]))]
            base = [{(c, d, ze if rnd.random() < .8 or not x else up(ze, np_ - 1)): k for (c, d, e), k in g.items()} for g in base]
            gens = conjugate(rnd, base, n, np_, diff)
            if not gens: continue
        elif kind == "left":               # multiples of one expression
            f = rexpr(rnd, n, K, np_, 3, 1, 1)
            gens = []
            for _ in range(rnd.choice([2, 2, 3])):
                op = {}
                for _ in range(rnd.randrange(1, 3)):
                    d = [0] * n
                    for _ in range(rnd.randrange(2 + (n == 1))): d[rnd.randrange(n)] += 1
                    op[(tuple(d), coefs(rnd, np_, 1))] = num(rnd)
                gens.append(apply(op, f, n, diff))
        else:
            gens = [rexpr(rnd, n, K, np_, rnd.choice([1, 2, 3]), 2, rnd.choice([1, 1, 2])) for _ in range(rnd.choice([1, 1, 2, 2, 3]))]
        gens = [g for g in gens if g]
        if not gens: continue
        if diff and rnd.random() < .25:    # inhomogeneous, with a known solution
            sol = {c: [(coefs(rnd, n, 2) + (0,) * (np_ - n), num(rnd)) for _ in range(2)] for c in range(K)}
            new = []
            for g in gens:
                r = dict(g)
                for (c, d, e), k in g.items():
                    for s, q in sol[c]:
                        f = {(-1, z, s): q}
                        for v in range(n):
                            for _ in range(d[v]): f = prol(f, v, True)
                        r = add(r, times(f, e, k), -1)
                new.append(r)
            gens = new
        if any(len(g) > 14 or sum(m[2]) > 6 or abs(c) > 10 ** 6 for g in gens for m, c in g.items()): continue
        top = max(order_of(g) for g in gens)
        if top > 4: continue
        cap = top + (4 if n < 3 else 3)
        R = reference(gens, order, n, diff, rnd, cap)
        if R is None or not R: continue
        if order % 16 == 1 and any(sum(m[1]) > cap - 3 for m in R): continue
        if max(R.values()) > cap - 2 or len(R) > 12 or max(R.values()) - top > (1 if kind in ("rand", "left") and n == 3 else 2): continue
        # what the leading derivatives alone cost
        return cls, order, n, K, x, gens, list(R)

def text(f):
    return " ".join([str(len(f))] + ["%d %d %s" % (k, c, " ".join(map(str, d + e))) for (c, d, e), k in f.items()])

def program(rnd, tid):
    cls, order, n, K, x, gens, R = system(rnd)
    np_ = x + (n if cls == "diff" else 0)
    alg = rnd.choice(["min", "block"]) if order == 0x12 else "min"
    out = ["begin %d pydsys %s %d %d %d %s %s %d" % (tid, cls, order, n, K + rnd.randrange(2), rnd.choice(["janet", "janet", "cache"]), alg, x)]
    rnd.shuffle(gens)
    for g in gens: out.append("push " + text(g))
    out += ["build", "hp -1"]
    if rnd.random() < .3: out.append("hp %d" % rnd.randrange(K + 1))
    for _ in range(rnd.randrange(1, 4)):
        if rnd.random() < .6:
            f = rexpr(rnd, n, K, np_, 3, 3, 1)
            if rnd.random() < .5:
                f = f if rnd.random() < .4 else {}
                g = rnd.choice(gens)
                for _ in range(rnd.randrange(2)): g = prol(g, rnd.randrange(n), cls == "diff")
                f = add(f, times(g, coefs(rnd, np_, 1) if np_ else (), num(rnd)))
            out.append(rnd.choice(["nf ", "nfq "]) + text(f))
        else:
            c, d = rnd.choice(R); d = list(d)
            for _ in range(rnd.randrange(3)): d[rnd.randrange(n)] += 1
            out.append("find %d %s" % (c, " ".join(map(str, d))))
    return out + ["end"]

def programs(seed, count):
    rnd = random.Random(seed * 7121 + 3)
    return [program(rnd, k) for k in range(count)]
def constant(seed, count):
    """systems with constant coefficients for the other two classes"""
    rnd = random.Random(seed * 7127 + 5)
    keep = (pysysgen.sysgen.BUDGET, pysysgen.sysgen.CAP)
    try:
        out = []
        while len(out) < count:
            p = pysysgen.program(rnd, len(out), rnd.choice(["module", "module", "rand", "binom", "mono"]))
            h = p[0].split()
            if h[5] == "0": continue
            p[0] += " " + rnd.choice(["diff", "schem"])
            out.append(p)
        return out
    finally: pysysgen.sysgen.BUDGET, pysysgen.sysgen.CAP = keep
