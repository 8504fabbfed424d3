"""Systems of polynomial generators of bounded cost."""
import random, itertools
import modp
from janetgen import complete

ORDERS = [0x12, 0x12, 0x22, 0x11, 0x21]

def num(rnd, big):
    if big and rnd.random() < .4:
        c = rnd.getrandbits(rnd.choice([20, 40, 64, 65, 130])) + 1
    else:
        c = rnd.choice([1, 1, 1, 2, 3, 5, 12, rnd.randrange(1, 100)])
    return c if rnd.random() < .5 else -c

def rpoly(rnd, n, deg, terms, poss, big):
    f = {}
    for _ in range(terms):
        e = [0] * n
        for _ in range(rnd.randrange(0, deg + 1)): e[rnd.randrange(n)] += 1
        f[(rnd.choice(poss),) + tuple(e)] = num(rnd, big)
    return f

def padd(f, g, c=1):
    r = dict(f)
    for m, k in g.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(f, g):                 # f in the ring
    r = {}
    for a, c in f.items():
        for b, d in g.items():
            m = (b[0],) + tuple(x + y for x, y in zip(a[1:], b[1:]))
            v = r.get(m, 0) + c * d
            if v: r[m] = v
            else: r.pop(m, None)
    return r

def text(f):
    """the driver reads:  count  then  hexcoef pos e1..en  per term"""
    out = [str(len(f))]
    for m, c in f.items():
        out.append(("-0x%x" % -c) if c < 0 else "0x%x" % c)
        out += [str(x) for x in m]
    return " ".join(out)

def var(n, i):
    return tuple(int(k == i) for k in range(n))
def classic(rnd):
    k = rnd.randrange(8)
    X = lambda n, *idx: (-1,) + tuple(sum(1 for i in idx if i == v) for v in range(n))
    if k == 0:      # cyclic 3
        n = 3; return n, [{X(n, 0): 1, X(n, 1): 1, X(n, 2): 1}, {X(n, 0, 1): 1, X(n, 1, 2): 1, X(n, 0, 2): 1}, {X(n, 0, 1, 2): 1, X(n): -1}]
    if k == 1:      # katsura 2
        n = 3; return n, [{X(n, 0): 1, X(n, 1): 2, X(n, 2): 2, X(n): -1}, {X(n, 0, 0): 1, X(n, 1, 1): 2, X(n, 2, 2): 2, X(n, 0): -1}, {X(n, 0, 1): 2, X(n, 1, 2): 2, X(n, 1): -1}]
    if k == 2:      # twisted cubic
        n = 4; return n, [{X(n, 0, 2): 1, X(n, 1, 1): -1}, {X(n, 1, 3): 1, X(n, 2, 2): -1}, {X(n, 0, 3): 1, X(n, 1, 2): -1}]
    if k == 3:      # implicitization
        n = 3; return n, [{X(n, 1): 1, X(n, 0, 0): -1}, {X(n, 2): 1, X(n, 0, 0, 0): -1}]
    if k == 4:
        n = 3; return n, [{X(n, 0, 0): 1, X(n, 1, 1): 1, X(n, 2, 2): 1, X(n): -1}, {X(n, 0, 0): 1, X(n, 2, 2): 1, X(n, 1): -1}, {X(n, 0): 1, X(n, 2): -1}]
    if k == 5:      # squarefree monomials with tails
        n = 4; return n, [{X(n, 0, 1): 3, X(n, 2): 1}, {X(n, 1, 2): 2, X(n, 3): -1}, {X(n, 2, 3): 1}]
    if k == 6:      # inconsistent
        n = 2; return n, [{X(n, 0, 0): 1, X(n, 1): 1}, {X(n, 0): 1, X(n): 1}, {X(n, 1): 1, X(n): 7}]
    n = 2; return n, [{X(n, 0, 0, 0): 1, X(n, 0, 1): -2}, {X(n, 0, 0, 1): 1, X(n, 1, 1): -2, X(n, 0): 1}]

def affordable(order, gens, budget, cap):
    """the leading monomials of the Janet basis, or None"""
    ideal = all(m[0] == -1 for g in gens for m in g)
    cx = modp.Ctx(order, budget=budget)
    try:
        G = cx.groebner(gens, ideal)
    except modp.Budget:
        return None
    COST[0] = cx.used
    L = {}
    for u, g in G:
        L.setdefault(u[0], []).append(u[1:])
    tot = 0
    for p, us in L.items():
        C = complete(us, cap)
        if C is None or max(map(sum, C)) > 14: return None
        tot += len(C)
    if tot > cap: return None
    if max(sum(m[1:]) for u, g in G for m in g) > 16: return None
    try:                                              # and the size of the numbers
        for u, g in modp.QCtx(order, QBUDGET).groebner(gens, ideal):
            if max(c.bit_length() for c in g.values()) > QBITS: return None
    except modp.Budget:
        return None
    return G

BUDGET, CAP, COST = 15000, 36, [0]
QBUDGET, QBITS = 40000, 500
def system(rnd, kind, big=False):
    while True:
        order = rnd.choice(ORDERS)
        n = rnd.choice([1, 2, 2, 3, 3, 3, 4])
        deg = {1: 6, 2: 4, 3: 3, 4: 2}[n]
        poss = [-1]
        if kind == "module":
            n = rnd.choice([1, 2, 2, 3]); deg = {1: 4, 2: 3, 3: 2}[n]
            poss = rnd.choice([[0, 1], [0, 1, 2], [-1, 0], [-1, 0, 1], [0], [2, 4]])
        if kind == "classic":
            n, gens = classic(rnd)
            if rnd.random() < .5:                     # other names for the variables
                p = list(range(n)); rnd.shuffle(p)
                gens = [{(m[0],) + tuple(m[1 + p[i]] for i in range(n)): c for m, c in g.items()} for g in gens]
        elif kind == "mono":
            gens = [rpoly(rnd, n, deg + 1, 1, poss, big) for _ in range(rnd.randrange(1, 5))]
        elif kind == "binom":
            gens = [rpoly(rnd, n, deg, 2, poss, big) for _ in range(rnd.randrange(1, 5))]
        else:
            gens = [rpoly(rnd, n, deg, rnd.choice([1, 2, 2, 3, 3, 4, 5]), poss, big) for _ in range(rnd.randrange(1, 5))]
        if kind == "hard":
            n = rnd.choice([2, 3, 3, 4]); deg = {2: 5, 3: 3, 4: 2}[n]
            poss = rnd.choice([[-1], [-1], [-1], [0, 1]])
            gens = [rpoly(rnd, n, deg, rnd.choice([2, 3, 4]), poss, big) for _ in range(rnd.randrange(2, 5))]
        gens = [g for g in gens if g]
        if not gens: continue
        if rnd.random() < .35:                        # redundant and equal generators
            g, h = rnd.choice(gens), rnd.choice(gens)
            f = padd(pmul({(-1,) + tuple(rnd.randrange(2) for _ in range(n)): num(rnd, False)}, g), h, num(rnd, False))
            if f: gens.append(f)
        if rnd.random() < .15: gens.append(dict(rnd.choice(gens)))
        if rnd.random() < .1: gens.append({})
        if rnd.random() < .06: gens.append({(poss[0],) + (0,) * n: num(rnd, big)})
        rnd.shuffle(gens)
        G = affordable(order, [g for g in gens if g], BUDGET, CAP)
        if G is None: continue
        if kind == "hard" and COST[0] < 400: continue
        return order, n, poss, gens, G

KINDS = ["rand", "module", "classic", "hard", "binom", "mono", "module", "hard", "hard", "rand"]
ALGS = [0, 0, 1, 2, 3, 4]
DISTINCT = [0, 1, 2, 3, 4]
def program(rnd, tid, kind, algs=ALGS, more=False):
    big = rnd.random() < .3
    order, n, poss, gens, G = system(rnd, kind, big)
    out = ["begin %d sys %d %d" % (tid, order, n)]
    alg = rnd.choice(algs)
    cut = rnd.randrange(1, len(gens) + 1) if rnd.random() < .45 else len(gens)
    if cut < len(gens) and affordable(order, [g for g in gens[:cut] if g] or [{(-1,) + (0,) * n: 1}], BUDGET, CAP) is None: cut = len(gens)
    def queries(k):
        for _ in range(k):
            x = rnd.random()
            if x < .6:
                f = rpoly(rnd, n, 4, rnd.randrange(0, 5), poss, big)
                if x < .3:                            # a member, or a member and a bit
                    f = f if x < .12 else {}
                    for _ in range(rnd.randrange(1, 3)):
                        f = padd(f, pmul({(-1,) + tuple(rnd.randrange(2) for _ in range(n)): num(rnd, False)}, rnd.choice(gens)))
                out.append("nf " + text(f))
            else:
                u = list(rnd.choice(G)[0]) if G else [-1] + [0] * n
                for _ in range(rnd.randrange(0, 4)):
                    v = rnd.randrange(1, n + 1); u[v] = max(0, u[v] + rnd.choice([1, 1, 2, -1]))
                if rnd.random() < .1: u[0] = rnd.choice([-1, 0, 1, 2])
                out.append("find " + " ".join(map(str, u)))
    for g in gens[:cut]: out.append("push " + text(g))
    out.append("build %d" % alg); out.append("hp")
    queries(rnd.randrange(4, 12) if more else rnd.randrange(1, 5))
    if cut < len(gens):
        for g in gens[cut:]:
            out.append("push " + text(g))
            if rnd.random() < .4: out.append("build %d" % alg)
        out.append("build %d" % rnd.choice(algs)); out.append("hp")
        queries(rnd.randrange(1, 4))
    if rnd.random() < .2:
        out.append("build %d" % alg); queries(1)
    return out + ["end"]

def programs(seed, count, kinds=KINDS, algs=ALGS, queries=False):
    rnd = random.Random(seed * 15485863 + 17)
    return [program(rnd, k, kinds[k % len(kinds)], algs, queries) for k in range(count)]

WIDTHS = [7, 9, 12, 17, 31, 32, 33, 40, 64, 65, 70, 130]
def places(rnd, n):
    """n variables somewhere among many more"""
    N = rnd.choice([w for w in WIDTHS if w >= n])
    at = sorted(rnd.sample(range(N), n))
    if rnd.random() < .5: at[-1] = N - 1
    return [N] + at
def wide_programs(seed, count, algs=ALGS, queries=False):
    """the same systems in modules of many components over rings of many variables, the others never show up"""
    rnd = random.Random(seed * 15485863 + 29)
    out = []
    for p in programs(seed, count, algs=algs, queries=queries):
        n = int(p[0].split()[4])
        comps = sorted(rnd.sample(range(rnd.choice([8, 20, 70, 300])), 6)) if rnd.random() < .7 else []
        out.append([p[0] + " " + " ".join(map(str, places(rnd, n) + comps))] + [l for l in p[1:] if l != "hp"])
    return out

def ideal_programs(seed, n, top, every=1):
    """systems of monomials: every monomial ideal of the box, in one component or in the ring"""
    import janetgen
    rnd = random.Random(seed * 15485863 + 19)
    out = []
    for k, A in enumerate(janetgen.antichains(n, top)):
        if (k + seed) % every or complete(list(A), 60) is None: continue
        pos, c = rnd.choice([-1, -1, 0, 1]), num(rnd, False)
        A = list(A); rnd.shuffle(A)
        p = ["begin %d sys %d %d" % (k, rnd.choice(ORDERS), n)] + ["push " + text({(pos,) + e: c}) for e in A]
        out.append(p + ["build %d" % rnd.choice(DISTINCT), "hp", "end"])
    return out

def use_programs(edges, order, n, every, seed, deg):
    """the systems TLC enumerated: normal forms of all monomials up to a degree, of members, lookups everywhere"""
    import json
    rnd = random.Random(seed * 15485863 + 23)
    out = []
    for k, (s, _, _) in enumerate(sorted(set(edges))):
        if (k + seed) % every: continue
        gens = [{tuple(m): c for m, c in g} for g in json.loads(s)]
        rnd.shuffle(gens)
        poss = sorted({m[0] for g in gens for m in g})
        p = ["begin %d sys %d %d" % (k, order, n)] + ["push " + text(g) for g in gens] + ["build %d" % rnd.choice(DISTINCT)]
        for pos in poss:
            for e in itertools.product(range(deg + 1), repeat=n):
                if sum(e) <= deg:
                    p.append("find %d %s" % (pos, " ".join(map(str, e))))
                    p.append("nf " + text({(pos,) + e: 1}))
        for _ in range(3):
            f = {}
            for g in gens: f = padd(f, pmul({(-1,) + tuple(rnd.randrange(3) for _ in range(n)): num(rnd, False)}, g))
            p.append("nf " + text(f))
        out.append(p + ["end"])
    return out
