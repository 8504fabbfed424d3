"""Programs for the Python binding."""
import random
import monomgen, polygen
from polygen import rcoef, rmono, rpoly

def hexc(rnd, big):
    return str(rcoef(rnd, big) if rnd.random() < .85 else rnd.choice([0, 0, 1, -1]))

def translate(act, frm):
    op, a = act[0], act[1:]
    if op == "drop": return ["drop"]
    if op == "mono": return ["mono %d %s" % (a[0] - 1, " ".join(map(str, a[1])))]
    if op in ("addc", "subc", "multc", "raddc", "rsubc", "rmultc"): return ["%s %d %s" % (op, a[0] - 1, polygen.dec(a[1]))]
    if op == "pow": return ["pow %d %d" % (a[0] - 1, a[1])]
    return [op + " " + " ".join(str(x - 1) for x in a)]

def poly_program(rnd, tid, steps):
    n = rnd.choice([2, 2, 3, 3, 4, 6])
    order = rnd.choice(polygen.ORD)
    nr = rnd.choice([2, 3, 4])
    poses = rnd.choice([[-1], [-1], [-1, 0, 1], [0, 1, 2]])
    big = rnd.random() < .6
    mx = rnd.choice([1, 2, 3])
    out = ["begin %d cypoly %d %d %d" % (tid, nr, order, n)]
    R = lambda: rnd.randrange(nr)
    nv = 0
    for k in range(nr): out.append("set %d %s" % (k, rpoly(rnd, n, poses, 5, mx, big)))
    for _ in range(steps):
        op = rnd.choice(["set", "set", "mono", "opadd", "opadd", "opsub", "opsub", "opmult", "opmult", "opneg", "addc", "raddc", "subc", "rsubc", "multc", "rmultc",
                         "pow", "q", "q", "take", "takesum", "takeprod", "drop", "multred", "multred", "pp", "cancel"])
        k, a, b = R(), R(), R()
        if op == "set": out.append("set %d %s" % (k, rpoly(rnd, n, poses, rnd.choice([1, 2, 3, 6]), mx, big)))
        elif op == "mono": out.append("mono %d %s" % (k, " ".join(map(str, rmono(rnd, n, mx, poses)))))
        elif op in ("opadd", "opsub", "opmult"): out.append("%s %d %d %d" % (op, k, a, b))
        elif op == "opneg": out.append("opneg %d %d" % (k, a))
        elif op in ("addc", "raddc", "subc", "rsubc", "multc", "rmultc"): out.append("%s %d %s" % (op, k, hexc(rnd, big)))
        elif op == "pow": out.append("pow %d %d" % (k, rnd.choice([0, 1, 2, 2, 3])))
        elif op in ("take", "takesum", "takeprod"):
            if nv < 3: nv += 1; out.append("take %d" % a if op == "take" else "%s %d %d" % (op, a, b))
        elif op == "drop": nv = max(0, nv - 1); out.append("drop")
        elif op in ("q", "pp"): out.append("%s %d" % (op, k))
        elif op == "cancel": out += ["opneg %d %d" % (k, a), "opadd %d %d %d" % (k, k, a)] if k != a else ["opsub %d %d %d" % (k, a, a)]
        elif op == "multred" and k != a:
            out += ["mono %d %s" % (k, " ".join(map(str, [-1] + rmono(rnd, n, 2, [-1])[1:]))), "opmult %d %d %d" % (k, k, a), "multc %d %d" % (k, rcoef(rnd, big))]
            if b not in (k, a): out.append("opadd %d %d %d" % (k, k, b))
            if nv < 3 and rnd.random() < .3: nv += 1; out.append("take %d" % k)
            out += ["red %d %d" % (k, a), "pp %d" % k]
    return out + ["q %d" % k for k in range(nr)] + ["end"]

def larges(seed, n):
    """polynomials of hundreds of terms, few steps"""
    rnd = random.Random(seed * 21 + 9); res = []
    for t in range(n):
        k = rnd.choice([2, 3, 4]); order = rnd.choice(polygen.ORD); poses = rnd.choice([[-1], [-1, 0, 1]]); mx = {2: 30, 3: 12, 4: 6}[k]
        m = rnd.choice([80, 130, 200])
        out = ["begin %d cypoly 4 %d %d" % (t, order, k)]
        for d in (0, 2): out.append("set %d %s" % (d, polygen.dense(rnd, k, poses, m, mx, False)))
        out.append("set 1 %s" % polygen.dense(rnd, k, [-1], rnd.choice([3, 6]), mx, False))
        ops = ["opadd 3 0 2", "opsub 3 0 2", "opsub 2 2 0", "opmult 3 1 0", "opmult 3 0 1", "opneg 2 0", "multc 0 3", "rsubc 2 5", "take 0", "opadd 0 0 2", "q 3", "pp 0"]
        out += rnd.sample(ops, 5)
        res.append(out + ["q 0", "q 2", "end"])
    return res

def monom_program(rnd, tid, steps):
    n = rnd.choice([2, 2, 3, 4, 5, 9, 17, 33])
    nr = rnd.choice([2, 3, 4])
    R = monomgen.Regs(n, nr)
    r = R.r
    out = ["begin %d cymonom %d %d" % (tid, nr, n)]
    poses = [-1, -1, -1, 0, 1, 2, 7]
    for _ in range(steps):
        L = R.live()
        k = rnd.randrange(nr)
        ops = ["zero", "var", "set", "set", "crand"]
        if L: ops += ["prod", "prod", "prod", "power", "power", "cdiv", "cdiv", "cdiv", "setpos", "cperm", "free", "cq", "cq", "cq", "near"]
        op = rnd.choice(ops)
        a = rnd.choice(L) if L else 0
        b = rnd.choice(L) if L else 0
        p = rnd.choice(poses)
        if op == "zero": r[k] = [p] + [0] * n; out.append("zero %d %d" % (k, p))
        elif op == "var": v = rnd.randrange(n); r[k] = [p] + [int(x == v) for x in range(n)]; out.append("var %d %d %d" % (k, v, p))
        elif op == "set":
            e = monomgen.rexp(rnd, n, rnd.choice([0, 0, 1, 1, 2, 3, 4])); r[k] = [p] + e; out.append("set %d %d %s" % (k, p, " ".join(map(str, e))))
        elif op == "near":
            m = list(r[a]); x, y = rnd.randrange(1, n + 1), rnd.randrange(1, n + 1)
            if m[x]: m[x] -= 1; m[y] += 1
            r[k] = m; out.append("set %d %d %s" % (k, m[0], " ".join(map(str, m[1:])))); out.append("cq %d %d" % (a, k))
        elif op == "prod":
            if r[a][0] != -1 and r[b][0] != -1: continue
            m = [r[b][0] if r[a][0] == -1 else r[a][0]] + [x + y for x, y in zip(r[a][1:], r[b][1:])]
            if max(m) > 10 ** 6: continue
            r[k] = m; out.append("prod %d %d %d" % (k, a, b))
        elif op == "power":
            x = rnd.choice([0, 1, 2, 3, 7])
            if r[a][0] != -1 or max(r[a]) * x > 10 ** 6: continue
            r[k] = [-1] + [y * x for y in r[a][1:]]; out.append("power %d %d %d" % (k, a, x))
        elif op == "cdiv":
            x, y = r[a], r[b]
            if not ((y[0] == -1 or y[0] == x[0]) and all(s >= t for s, t in zip(x[1:], y[1:]))):
                z = rnd.choice([j for j in range(nr) if j != b])       # a multiple of the divisor first
                if not (x[0] == -1 or y[0] == -1): continue
                m = [y[0] if x[0] == -1 else x[0]] + [s + t for s, t in zip(x[1:], y[1:])]
                if max(m) > 10 ** 6: continue
                out.append("prod %d %d %d" % (z, a, b)); r[z] = x = m; a = z
            r[k] = [-1 if x[0] == y[0] else x[0]] + [s - t for s, t in zip(x[1:], y[1:])]
            out.append("cdiv %d %d %d" % (k, a, b))
        elif op == "setpos": r[a] = [p] + r[a][1:]; out.append("setpos %d %d" % (a, p))
        elif op == "cperm": out += ["cperm %d %d" % (k, a), "set %d %d %s" % (k, r[a][0], " ".join(map(str, r[a][1:])))]; r[k] = list(r[a])
        elif op == "crand":
            d1 = rnd.randrange(1, 5); r[k] = [-1] + [0] * n
            out += ["crand %d %d %d" % (k, d1, d1 + rnd.randrange(1, 4)), "zero %d -1" % k]
        elif op == "free": r[a] = None; out.append("free %d" % a)
        elif op == "cq": out.append("cq %d %d" % (a, b))
    return out + ["cend"]

def polys(seed, count, steps):
    rnd = random.Random(seed * 31 + 7)
    return [poly_program(rnd, t, steps) for t in range(count)]
def monoms(seed, count, steps):
    rnd = random.Random(seed * 37 + 5)
    return [monom_program(rnd, t, steps) for t in range(count)]
