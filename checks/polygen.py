"""Programs over polynomial registers (drv_ginv section poly)."""
import random
ORD = [0x11, 0x12, 0x14, 0x21, 0x22, 0x24]
WELL = [0x11, 0x12, 0x21, 0x22]

def rcoef(rnd, big):
    k = rnd.random()
    if k < .5: return rnd.choice([1, -1, 2, -3, 5, 7, -4])
    if k < .8 or not big: return rnd.randrange(-9999, 10000) or 1
    if k < .9: return rnd.choice([1, -1]) * (2 ** rnd.choice([31, 32, 62, 63, 64, 65, 127, 128]) + rnd.choice([-1, 0, 1]))
    return rnd.choice([1, -1]) * rnd.randrange(1, 10 ** rnd.randrange(5, 45))

def rmono(rnd, n, mx, poses):
    e = [0] * n
    for _ in range(rnd.randrange(mx + 1)):
        e[rnd.randrange(n)] += 1
    return [rnd.choice(poses)] + e

def rpoly(rnd, n, poses, terms, mx, big):
    ts = []
    for _ in range(rnd.randrange(terms + 1)):
        ts.append("%d %s" % (rcoef(rnd, big), " ".join(map(str, rmono(rnd, n, mx, poses)))))
    return "%d %s" % (len(ts), " ".join(ts))

def hexc(rnd, big):
    v = rcoef(rnd, big) if rnd.random() < .9 else 0
    if rnd.random() < .5: return ("-" if v < 0 else "") + hex(abs(v))
    return str(v)

def dense(rnd, n, poses, terms, mx, big):
    """a polynomial of exactly so many terms (if there are as many monomials)"""
    S = {}
    for _ in range(20 * terms):
        if len(S) == terms: break
        S[tuple([rnd.choice(poses)] + [rnd.randrange(mx + 1) for _ in range(n)])] = rcoef(rnd, big)
    return "%d %s" % (len(S), " ".join("%d %s" % (v, " ".join(map(str, m))) for m, v in S.items()))
def large(rnd, tid):
    """polynomials of hundreds of terms, few steps"""
    n = rnd.choice([1, 2, 3, 4]); order = rnd.choice(ORD); poses = rnd.choice([[-1], [-1, 0, 1]]); big = rnd.random() < .2
    mx = {1: 1500, 2: 30, 3: 12, 4: 6}[n]
    out = ["begin %d poly 4 %d %d 40" % (tid, order, n)]
    t = rnd.choice([100, 150, 250])
    for k in range(2): out.append("set %d %s" % (k, dense(rnd, n, poses if k == 0 else [-1], t if k == 0 else rnd.choice([5, 10, 20]), mx, big)))
    out += ["set 2 %s" % dense(rnd, n, poses, t, mx, big)]
    ops = ["q 0", "opadd 3 0 2", "opsub 3 0 2", "sub 2 0", "add 0 2", "mult 0 1", "opmult 3 1 0", "minus 0", "multc 0 %d" % rcoef(rnd, False), "mono 3 %s" % " ".join(["-1"] + ["1"] * n),
           "mult 3 0", "gc 3 0", "movec 2 0", "moveassign 2 0", "copy 3 0", "assign 3 0", "swap 0 3", "opneg 2 0", "prol 2 0 0", "sub 0 0", "addc 0 7", "pp 0"]
    for _ in range(6):
        if rnd.random() < .3 and n < 4: out += ["mono 3 %s" % " ".join(["-1"] + [str(rnd.randrange(3)) for _ in range(n)]), "mult 3 1", "add 3 2", rnd.choice(["red 3 1", "redmaybe 3 1"]), "pp 3"]
        else: out.append(rnd.choice(ops))
    return out + ["q 0", "q 3", "end"]
def larges(seed, n):
    rnd = random.Random(seed * 6 + 9)
    return [large(rnd, t) for t in range(n)]

def program(rnd, tid, steps, kind):
    n = rnd.choice([1, 2, 2, 3, 3, 4, 6, 22])
    order = rnd.choice(ORD if kind == "ring" else WELL + ([0x14, 0x24] if rnd.random() < .15 else []))
    nr = rnd.choice([3, 4, 5])
    poses = rnd.choice([[-1], [-1], [-1, 0, 1], [0, 1, 2], [-1, -1, -1, 2]])
    big = rnd.random() < .6
    out = ["begin %d poly %d %d %d" % (tid, nr, order, n)]
    R = lambda: rnd.randrange(nr)
    def two():
        a, b = R(), R()
        while a == b: b = R()
        return a, b
    mx = rnd.choice([1, 2, 3, 4])
    for k in range(nr):
        out.append("set %d %s" % (k, rpoly(rnd, n, poses, 5, mx, big)))
    for _ in range(steps):
        k, a = two()
        if kind == "ring":
            op = rnd.choice(["set", "set", "const", "mono", "copy", "prol", "movec", "moveassign", "assign", "swap", "minus", "add", "add", "sub", "sub", "mult", "mult",
                             "opadd", "opsub", "opmult", "opneg", "addc", "subc", "multc", "pow", "gc", "q", "q", "cmp", "selfadd", "selfmult", "selfsub", "multmono", "cancel"])
        else:
            op = rnd.choice(["set", "red", "red", "multred", "multred", "redmaybe", "redmaybe", "pp", "pp", "multc", "nf", "nf", "nfhead", "nftail", "add", "sub", "multmono", "q", "addmult"])
        if op == "set": out.append("set %d %s" % (k, rpoly(rnd, n, poses, rnd.choice([1, 2, 3, 6, 9]), mx, big)))
        elif op == "const": out.append("const %d %s" % (k, hexc(rnd, big)))
        elif op == "mono": out.append("mono %d %s" % (k, " ".join(map(str, rmono(rnd, n, mx, poses)))))
        elif op in ("copy", "movec", "moveassign", "assign", "swap", "add", "sub", "mult", "gc", "opneg", "red", "redmaybe"):
            out.append("%s %d %d" % (op, k, a))
        elif op == "prol": out.append("prol %d %d %d" % (k, rnd.randrange(n), a))
        elif op in ("minus", "pp", "q"): out.append("%s %d" % (op, k))
        elif op in ("opadd", "opsub", "opmult"): out.append("%s %d %d %d" % (op, k, R(), R()))
        elif op in ("addc", "subc", "multc"): out.append("%s %d %s" % (op, k, hexc(rnd, big)))
        elif op == "pow": out.append("pow %d %d" % (k, rnd.choice([0, 1, 2, 3, 4])))
        elif op == "cmp": out.append("cmp %d %d" % (k, a))
        elif op == "selfadd": out.append("add %d %d" % (k, k))
        elif op == "selfsub": out += ["copy %d %d" % (a, k), "sub %d %d" % (k, k), "add %d %d" % (k, a)][:rnd.choice([2, 3])]
        elif op == "selfmult": out.append("mult %d %d" % (k, k))
        elif op == "cancel":          # sums that lose terms, including all of them
            out += ["copy %d %d" % (k, a), "minus %d" % k, "multc %d %s" % (k, rnd.choice(["1", "1", "-1", "3"])), "add %d %d" % (k, a)]
        elif op == "multmono":
            out += ["mono %d %s" % (k, " ".join(map(str, [-1] + rmono(rnd, n, 2, [-1])[1:]))), "multc %d %d" % (k, rcoef(rnd, big)), "mult %d %d" % (k, a)]
        elif op == "addmult":         # k := k + multiple of a, so that reductions have something to cancel
            b = R()
            if b in (k, a): continue
            out += ["mono %d %s" % (b, " ".join(map(str, [-1] + rmono(rnd, n, 2, [-1])[1:]))), "mult %d %d" % (b, a), "multc %d %d" % (b, rcoef(rnd, False)), "add %d %d" % (k, b)]
        elif op == "multred":         # k := multiple of a plus something, then reduce
            b = R()
            if b in (k, a): continue
            out += ["mono %d %s" % (k, " ".join(map(str, [-1] + rmono(rnd, n, 3, [-1])[1:]))), "mult %d %d" % (k, a), "multc %d %d" % (k, rcoef(rnd, big)),
                    "add %d %d" % (k, b), rnd.choice(["red %d %d", "red %d %d", "redmaybe %d %d"]) % (k, a)]
            if rnd.random() < .6: out.append("pp %d" % k)
        elif op in ("nf", "nfhead", "nftail"):
            ds = rnd.sample([x for x in range(nr) if x != k], rnd.randrange(1, nr))
            deg = rnd.choice([2, 3])
            for d in ds:
                if rnd.random() < .7: out.append("set %d %s" % (d, rpoly(rnd, n, poses, 3, deg, False)))
                out.append("pp %d" % d)
            out.append("set %d %s" % (k, rpoly(rnd, n, poses, 5, 4, False)))
            out.append("%s %d %s" % (op, k, " ".join(map(str, ds))))
            out.append("pp %d" % k)
    out.append("end")
    return out

def programs(seed, count, steps, kind):
    rnd = random.Random(seed * 2 + (kind == "ring"))
    return [program(rnd, t, steps, kind) for t in range(count)]

def dec(b):
    """BigInt of the specification -> decimal"""
    v = 0
    for d in reversed(b[1:]): v = v * 10000 + d
    return str(b[0] * v)

def translate(act, frm):
    op, a = act[0], act[1:]
    if op == "mono": return ["mono %d %s" % (a[0] - 1, " ".join(map(str, a[1])))]
    if op in ("const", "addc", "subc", "multc"): return ["%s %d %s" % (op, a[0] - 1, dec(a[1]))]
    if op == "prol": return ["prol %d %d %d" % (a[0] - 1, a[1] - 1, a[2] - 1)]
    if op == "pow": return ["pow %d %d" % (a[0] - 1, a[1])]
    return [op + " " + " ".join(str(x - 1) for x in a)]
