"""Programs over lists and their iterators (the mirror keeps them inside the preconditions)."""
import random

def translate(act, frm):
    op = act[0]
    z = {"clear": "d", "push": "dv", "pop": "d", "swap": "dd", "assign": "dd", "movea": "dd", "movec": "dd", "copy": "ddv", "ibegin": "dd", "cbegin": "dd",
         "inext": "d", "del": "d", "iclear": "d", "ins": "dv", "iset": "dv", "get": "dd", "splice": "dd", "cfrom": "dd", "icopy": "dd", "cnext": "d", "cset": "dv"}[op]
    out = [op + " " + " ".join(str(x - 1 if k == "d" else x) for k, x in zip(z, act[1:]))]
    if op in ("ins", "del", "get", "splice", "inext", "iclear"):
        out.append("qi %d" % (act[1] - 1))
    return out

class M:
    def __init__(s, nl, ni, nc):
        s.l, s.ar, s.it, s.c = [None] * nl, [0] * nl, [None] * ni, [None] * nc   # c: ["in",d,p] / ["held",ar] / ["end"]
    def drop(s, d):
        s.it = [None if x and x[0] == d else x for x in s.it]
        s.c = [None if x and x[0] == "in" and x[1] == d else x for x in s.c]
    def keephead(s, ds):
        s.it = [None if x and x[0] in ds and x[1] > 0 else x for x in s.it]
    def cdrop(s, d): s.c = [None if x and x[0] == "in" and x[1] == d else x for x in s.c]
    def ins(s, d, p):
        s.l[d] += 1
        for x in s.it:
            if x and x[0] == d and x[1] > p: x[1] += 1
        for x in s.c:
            if x and x[0] == "in" and x[1] == d and x[2] >= p: x[2] += 1
    def rem(s, d, p):
        s.l[d] -= 1
        for k, x in enumerate(s.it):
            if x and x[0] == d:
                if x[1] == p + 1: s.it[k] = None
                elif x[1] > p + 1: x[1] -= 1
        for k, x in enumerate(s.c):
            if x and x[0] == "in" and x[1] == d:
                if x[2] == p: s.c[k] = None
                elif x[2] > p: x[2] -= 1
    def onend(s, d, p): return ["in", d, p] if p < s.l[d] else ["end"]
    def cto(s, m):
        for x in s.c:
            if x and x[0] == "in" and x[1] in m: x[1] = m[x[1]]

def program(rnd, tid, nl, ni, nc, steps, owned=False):
    m = M(nl, ni, nc)
    out = ["begin %d list %d %d %d" % (tid, nl, ni, nc)]
    for d in range(nl):
        ar = int(d == nl - 1 and nl > 2)
        m.l[d] = 0; m.ar[d] = ar; out.append("new %d %d" % (d, ar))
    w = {"new": 1, "copy": 2, "movec": 2, "movea": 2, "assign": 2, "swap": 3, "clear": 1, "push": 12, "pop": 5, "ibegin": 10, "icopy": 3, "inext": 14, "iset": 4, "ins": 14,
         "del": 7, "iclear": 1, "get": 8, "splice": 10, "cbegin": 3, "cfrom": 5, "cnext": 5, "cset": 4, "qi": 6, "qc": 5, "ieq": 3, "ceq": 3}
    if owned: w["get"] = 0
    ops, ws = list(w), list(w.values())
    v = lambda: rnd.randrange(1000)
    while len(out) < steps:
        op = rnd.choices(ops, ws)[0]
        d, a, k, j, c = rnd.randrange(nl), rnd.randrange(nl), rnd.randrange(ni), rnd.randrange(ni), rnd.randrange(nc)
        L, it, C = m.l, m.it, m.c
        held = lambda x: x is not None and x[0] == "held"
        if op in ("copy", "movec", "movea", "assign", "swap") and a == d: continue
        if op in ("inext", "iset", "del", "get") and not (it[k] and it[k][1] < L[it[k][0]]): continue
        if op in ("ins", "iclear", "splice", "cfrom", "qi") and not it[k]: continue
        if op in ("cbegin", "cfrom", "get") and held(C[c]): continue
        if op == "new":
            ar = rnd.randrange(2); m.drop(d); L[d] = 0; m.ar[d] = ar; out.append("new %d %d" % (d, ar))
        elif op == "copy":
            ar = rnd.randrange(2); m.drop(d); L[d] = L[a]; m.ar[d] = ar; out.append("copy %d %d %d" % (d, a, ar))
        elif op in ("movec", "movea"):
            if op == "movec": m.keephead([a]); m.drop(d)
            else: m.keephead([a, d]); m.cdrop(d)
            m.cto({a: d}); L[d], L[a] = L[a], 0; m.ar[d] = m.ar[a]; out.append("%s %d %d" % (op, d, a))
        elif op == "assign":
            m.keephead([d]); m.cdrop(d); L[d] = L[a]; out.append("assign %d %d" % (d, a))
        elif op == "swap":
            m.keephead([a, d]); m.cto({a: d, d: a}); L[a], L[d] = L[d], L[a]; m.ar[a], m.ar[d] = m.ar[d], m.ar[a]; out.append("swap %d %d" % (d, a))
        elif op == "clear":
            m.keephead([d]); m.cdrop(d); L[d] = 0; out.append("clear %d" % d)
        elif op == "push": m.ins(d, 0); out.append("push %d %d" % (d, v()))
        elif op == "pop":
            if L[d]: m.rem(d, 0); out.append("pop %d" % d)
        elif op == "ibegin": it[k] = [d, 0]; out.append("ibegin %d %d" % (k, d))
        elif op == "icopy":
            if it[j] and j != k: it[k] = list(it[j]); out.append("icopy %d %d" % (k, j))
        elif op == "inext": it[k][1] += 1; out.append("inext %d" % k)
        elif op == "iset": out.append("iset %d %d" % (k, v()))
        elif op == "ins": m.ins(*it[k]); out += ["ins %d %d" % (k, v()), "qi %d" % k]
        elif op == "del": m.rem(*it[k]); out += ["del %d" % k, "qi %d" % k]
        elif op == "iclear":
            if it[k][1] == 0 and rnd.random() < .5: x = it[k][0]; m.keephead([x]); m.cdrop(x); L[x] = 0; out += ["iclear %d" % k, "qi %d" % k]
        elif op == "get":
            x = it[k][0]; m.rem(*it[k]); C[c] = ["held", m.ar[x]]; out += ["get %d %d" % (k, c), "qi %d" % k]
        elif op == "splice":
            if held(C[c]) and C[c][1] == m.ar[it[k][0]]:
                C[c] = None; x = list(it[k]); m.ins(*x); C[c] = ["in"] + x; out += ["splice %d %d" % (k, c), "qi %d" % k]
        elif op == "cbegin": C[c] = m.onend(d, 0); out.append("cbegin %d %d" % (c, d))
        elif op == "cfrom": C[c] = m.onend(*it[k]); out.append("cfrom %d %d" % (c, k))
        elif op == "cnext":
            if C[c] and C[c][0] == "in": C[c] = m.onend(C[c][1], C[c][2] + 1); out.append("cnext %d" % c)
        elif op == "cset":
            if C[c] and C[c][0] != "end": out.append("cset %d %d" % (c, v()))
        elif op == "qi": out.append("qi %d" % k)
        elif op == "qc":
            if C[c]: out.append("qc %d" % c)
        elif op == "ieq":
            if it[k] and it[j]: out.append("ieq %d %d" % (k, j))
        elif op == "ceq":
            j = rnd.randrange(nc)
            if C[c] and C[j]: out.append("ceq %d %d" % (c, j))
    return out + ["end"]

def long(rnd, tid, n):
    """long lists, few steps"""
    out = ["begin %d list 3 2 2" % tid, "new 0 0", "new 1 0", "new 2 1", "pushn 0 %d %d" % (rnd.randrange(1000), n)]
    L = [n, 0, 0]
    for _ in range(10):
        d = rnd.choice([x for x in range(3) if L[x]])
        p = rnd.choice([0, 1, L[d] // 2, L[d] - 1, rnd.randrange(L[d])])
        out += ["ibegin 0 %d" % d, "inextn 0 %d" % p, "cfrom 0 0", "qi 0", "ceq 0 0"]
        op = rnd.choice(["ins", "del", "copy", "assign", "swap", "iclear", "get", "pop", "cset", "movea"])
        a = rnd.choice([x for x in range(3) if x != d])
        if op == "ins": out += ["ins 0 %d" % rnd.randrange(1000), "qc 0"]; L[d] += 1
        elif op == "del":
            out += ["del 0", "qi 0"]; L[d] -= 1
        elif op == "iclear": out += ["ibegin 0 %d" % d, "iclear 0"]; L[d] = 0
        elif op == "pop": out.append("pop %d" % d); L[d] -= 1
        elif op == "cset": out.append("cset 0 %d" % rnd.randrange(1000))
        elif op == "get":
            k = rnd.randrange(L[d])
            out += ["get 0 1", "qc 1", "ibegin 1 %d" % d, "inextn 1 %d" % k if L[d] > 1 and k < L[d] else "qi 1", "splice 1 1"]
        elif op == "copy": out.append("copy %d %d %d" % (a, d, rnd.randrange(2))); L[a] = L[d]
        elif op in ("assign", "movea"): out.append("%s %d %d" % (op, a, d)); L[a] = L[d]; L[d] = L[d] if op == "assign" else 0
        else: out.append("swap %d %d" % (a, d)); L[a], L[d] = L[d], L[a]
        if not any(L): break
        if op not in ("get",): out += ["ibegin 0 0", "cbegin 0 0", "ibegin 1 0", "cbegin 1 0"]
    return out + ["end"]
def longs(seed, n):
    rnd = random.Random(seed * 15 + 2)
    return [long(rnd, t, rnd.choice([300, 1000, 1500])) for t in range(n)]

def programs(seed, n, steps, owned=False):
    """owned: no program keeps a detached node to itself."""
    rnd = random.Random(seed * 15 + 1)
    return [program(rnd, t, rnd.choice([1, 2, 3, 4]), rnd.choice([1, 2, 3]), rnd.choice([1, 2]), rnd.randrange(steps // 3, steps), owned) for t in range(n)]
