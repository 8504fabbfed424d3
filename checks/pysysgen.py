"""Systems for the completions of the pure Python package."""
import random
import sysgen
from sysgen import rpoly, padd, pmul, num, text, affordable

def program(rnd, tid, kind):
    while True:
        sysgen.BUDGET, sysgen.CAP = 5000, 28
        order, n, poss, gens, G = sysgen.system(rnd, kind, rnd.random() < .25)
        if any(m[0] == -1 for g in gens for m in g) and any(m[0] >= 0 for g in gens for m in g):   # all in the ring or all in the module
            gens = [{m: c for m, c in g.items() if m[0] >= 0} for g in gens]
            poss = [p for p in poss if p >= 0]
            gens = [g for g in gens if g]
            if not gens: continue
        ring = all(m[0] == -1 for g in gens for m in g)
        if not any(gens): continue
        order = rnd.choice([0x12, 0x12, 0x12, 0x22, 0x11, 0x21])
        G = affordable(order, [g for g in gens if g], 5000, 28)
        if G is not None: break
    K = 0 if ring else max(poss) + 1 + rnd.randrange(2)
    alg = rnd.choice(["min", "block"]) if order == 0x12 else "min"
    inv = rnd.choice(["janet", "janet", "cache"])
    out = ["begin %d pysys %d %d %d %s %s" % (tid, order, n, K, inv, alg)]
    if ring: poss = [-1]
    cut = rnd.randrange(1, len(gens) + 1) if rnd.random() < .35 else len(gens)
    if cut < len(gens) and (not any(gens[:cut]) or affordable(order, [g for g in gens[:cut] if g], 5000, 28) is None): cut = len(gens)
    def queries(k):
        for _ in range(k):
            x = rnd.random()
            if x < .65:
                f = rpoly(rnd, n, 4, rnd.randrange(0, 5), poss, False)
                if x < .3:
                    f = f if x < .12 else {}
                    for _ in range(rnd.randrange(1, 3)):
                        f = padd(f, pmul({(-1,) + tuple(rnd.randrange(2) for _ in range(n)): num(rnd, False)}, rnd.choice(gens)))
                out.append(rnd.choice(["nf ", "nfq "]) + text(f))
            else:
                u = list(rnd.choice(G)[0]) if G else [poss[0]] + [0] * n
                for _ in range(rnd.randrange(0, 4)):
                    v = rnd.randrange(1, n + 1); u[v] = max(0, u[v] + rnd.choice([1, 1, 2, -1]))
                if K and rnd.random() < .2: u[0] = rnd.randrange(K)
                out.append("find " + " ".join(map(str, u)))
    for g in gens[:cut]: out.append("push " + text(g))
    out += ["build", "hp"]
    queries(rnd.randrange(2, 6))
    if cut < len(gens):
        for g in gens[cut:]: out.append("push " + text(g))
        out += ["build", "hp"]
        queries(rnd.randrange(1, 4))
    return out + ["end"]

KINDS = ["rand", "module", "classic", "module", "binom", "mono", "module", "hard", "rand"]
def programs(seed, count):
    rnd = random.Random(seed * 104729 + 71)
    keep = (sysgen.BUDGET, sysgen.CAP)
    try: return [program(rnd, k, KINDS[k % len(KINDS)]) for k in range(count)]
    finally: sysgen.BUDGET, sysgen.CAP = keep

def wide_programs(seed, count):
    """the same systems in rings of many variables"""
    rnd = random.Random(seed * 104729 + 73)
    return [[p[0] + " poly " + " ".join(map(str, sysgen.places(rnd, int(p[0].split()[4]))))] + [l for l in p[1:] if l != "hp"] for p in programs(seed, count)]
