"""Programs over Boolean monomial registers."""
import random

def translate(act, frm=None):
    op = act[0]
    k = {"one": 1, "free": 1, "var": 1, "copy": 2, "assign": 2, "swap": 2, "addv": 2, "prod": 3, "div": 3}[op]
    return [" ".join([op] + [str(x - 1) for x in act[1:1 + k]] + [str(x) for x in act[1 + k:]]), "q %d %d" % (act[1] - 1, act[1] - 1)] if op not in ("free", "swap") \
        else [" ".join([op] + [str(x - 1) for x in act[1:]])]

def program(rnd, tid, steps):
    nr = rnd.randrange(2, 5)
    style = rnd.randrange(4)
    V = {0: list(range(3)), 1: list(range(12)), 2: [rnd.randrange(-50, 100000) for _ in range(20)] + [2147483647, 0], 3: list(range(200))}[style]
    r = [None] * nr
    out = ["begin %d bmonom %d" % (tid, nr)]
    for _ in range(steps):
        L = [k for k in range(nr) if r[k] is not None]
        d = rnd.randrange(nr)
        ops = ["one", "var", "var"]
        if L:
            ops += ["copy", "addv", "addv", "addv", "prod", "prod", "prod", "q", "q", "q", "div", "div", "sub", "free"]
            if r[d] is not None: ops += ["assign", "assign", "assign", "swap", "big"]
        op = rnd.choice(ops)
        a = rnd.choice(L) if L else 0
        b = rnd.choice(L) if L else 0
        v = rnd.choice(V)
        if op == "one": r[d] = set(); out.append("one %d" % d)
        elif op == "var": r[d] = {v}; out.append("var %d %d" % (d, v))
        elif op == "copy": r[d] = set(r[a]); out.append("copy %d %d" % (d, a))
        elif op == "addv":
            if r[a] and rnd.random() < .3: v = rnd.choice(sorted(r[a]))
            r[d] = r[a] | {v}; out.append("addv %d %d %d" % (d, a, v))
        elif op == "prod": r[d] = r[a] | r[b]; out.append("prod %d %d %d" % (d, a, b))
        elif op == "assign":
            if a != d: r[d] = set(r[a]); out.append("assign %d %d" % (d, a))
        elif op == "swap": r[d], r[a] = r[a], r[d]; out.append("swap %d %d" % (d, a))
        elif op == "free": r[a] = None; out.append("free %d" % a)
        elif op == "big":
            for _ in range(rnd.randrange(2, 12)):
                v = rnd.choice(V); r[d] = r[d] | {v}; out.append("addv %d %d %d" % (d, d, v))
        elif op == "div":
            if r[d] is not None and r[b] <= r[a]: r[d] = r[a] - r[b]; out.append("div %d %d %d" % (d, a, b))
        elif op == "sub" and nr > 2:
            # a divisor made from a part of a register, then the quotient
            k = rnd.choice([x for x in range(nr) if x != a])
            part = [x for x in sorted(r[a]) if rnd.random() < .5]
            r[k] = set(); out.append("one %d" % k)
            for x in rnd.sample(part, len(part)): r[k] = r[k] | {x}; out.append("addv %d %d %d" % (k, k, x))
            out.append("q %d %d" % (a, k))
            z = rnd.choice([x for x in range(nr) if r[x] is not None])
            r[z] = r[a] - r[k]; out.append("div %d %d %d" % (z, a, k))
        elif op == "q": out.append("q %d %d" % (a, b))
    return out + ["end"]

def programs(seed, count, steps):
    rnd = random.Random(seed * 7919 + 20)
    return [program(rnd, t, steps) for t in range(count)]
