"""Programs over stacks, timers, permutations, Hilbert polynomials."""
import random

def stack_translate(act, frm):
    op = act[0]
    z = {"pop": "d", "reset": "d", "new": "dvv", "push": "dv", "copy": "ddv", "assign": "dd", "swap": "dd"}[op]
    return [op + " " + " ".join(str(x - 1 if k == "d" else x) for k, x in zip(z, act[1:]))]

def stacks(seed, n, steps):
    rnd = random.Random(seed * 16 + 1); res = []
    for t in range(n):
        ns = rnd.choice([1, 2, 3]); deep = [0] * ns; out = ["begin %d stack %d" % (t, ns)]
        for d in range(ns): out.append("new %d %d %d" % (d, rnd.choice([1, 2, 3, 5, 10, 64]), rnd.randrange(2)))
        pp = rnd.choice([4, 6, 12])
        for _ in range(rnd.randrange(steps // 3, steps)):
            d, a = rnd.randrange(ns), rnd.randrange(ns)
            op = rnd.choices(["push", "pop", "pushn", "copy", "assign", "swap", "reset", "new"], [pp, 4, .7, .6, .8, .6, .2, .2])[0]
            if op == "push": deep[d] += 1; out.append("push %d %d" % (d, rnd.randrange(-1000, 1000)))
            elif op == "pushn":
                k = rnd.choice([1, 5, 30, 200])
                if sum(deep) + k < 1500: deep[d] += k; out.append("pushn %d %d %d" % (d, rnd.randrange(1000), k))
            elif op == "pop":
                if deep[d]: deep[d] -= 1; out.append("pop %d" % d)
            elif op == "reset": deep[d] = 0; out.append("reset %d" % d)
            elif op == "new": deep[d] = 0; out.append("new %d %d %d" % (d, rnd.choice([1, 2, 4, 20]), rnd.randrange(2)))
            elif d != a:
                if op == "swap": deep[a], deep[d] = deep[d], deep[a]
                else: deep[d] = deep[a]
                out.append("%s %d %d%s" % (op, d, a, " %d" % rnd.randrange(2) if op == "copy" else ""))
            if op == "pushn" and sum(deep) >= 1500 and not out[-1].startswith("pushn"): deep[d] -= k
        res.append(out + ["end"])
    return res

def tallstacks(seed, n):
    rnd = random.Random(seed * 16 + 2); res = []
    for t in range(n):
        k = rnd.choice([5000, 12000, 25000]); out = ["begin %d stack 2" % t, "new 0 %d 0" % rnd.choice([1, 7, 100, 4096]), "new 1 1 1"]
        out += ["pushn 0 %d %d" % (rnd.randrange(1000), k), "push 0 -5", "copy 1 0 %d" % rnd.randrange(2), "popn 0 %d" % rnd.randrange(k), "push 0 17", "swap 0 1", "popn 0 %d" % rnd.randrange(k),
                "pushn 0 3 %d" % rnd.randrange(k), "assign 1 0", "pop 1", "reset 0", "pushn 0 1 %d" % rnd.randrange(k)]
        res.append(out + ["end"])
    return res

def timer_translate(act, frm):
    if act[0] == "tick": return ["tick %d %d %d" % tuple(act[1])]
    return ["%s %s" % (act[0], " ".join(str(x - 1) for x in act[1:]))] + (["print %d" % (act[1] - 1)] if act[0] == "stop" else [])

def timers(seed, n, steps):
    rnd = random.Random(seed * 19 + 1); res = []
    for t in range(n):
        nt = rnd.choice([1, 2, 3]); ok = [False] * nt; out = ["begin %d timer %d" % (t, nt)]
        for _ in range(steps):
            k, a = rnd.randrange(nt), rnd.randrange(nt)
            op = rnd.choice(["tick", "tick", "tick", "start", "cont", "stop", "stop", "copy", "print"])
            if op == "tick":
                m = rnd.choice([1, 3, 50, 1000, 100000]); r = rnd.randrange(m + 1); u = rnd.randrange(r + 1); out.append("tick %d %d %d" % (r, u, rnd.randrange(r - u + 1)))
            elif op in ("start", "cont"): ok[k] = True; out.append("%s %d" % (op, k))
            elif op == "stop":
                if ok[k]: out.append("stop %d" % k)
            elif op == "copy": ok[k] = ok[a]; out.append("copy %d %d" % (k, a))
            else: out.append("print %d" % k)
        res.append(out + ["end"])
    return res

def perms(seed, n):
    rnd = random.Random(seed * 18 + 1); res = []
    for k in (1, 2, 3, 4):
        for warm in (0, 1, 2): res.append(["begin %d perm" % k, "all %d %d" % (k, warm), "end"])
    for k, m in ((1, 500), (2, 40000), (3, 60000), (4, 96000), (5, 240000)): res.append(["begin %d perm" % k, "freq %d %d" % (k, m), "end"])
    for k in (6, 7, 8, 9, 10, 13, 16, 17, 24, 32, 33, 50, 64, 65, 100): res.append(["begin %d perm" % k, "marg %d %d" % (k, 2000 * k), "end"])
    for t in range(n): res.append(["begin %d perm" % t, "walk %d %d" % (rnd.choice([1, 2, 3, 5, 8, 13, 30, 100]), rnd.randrange(1, 40)), "end"])
    return res

def hps(seed, n, steps):
    rnd = random.Random(seed * 17 + 1); res = []
    # every binomial of a box
    for dim in range(0, 8):
        out = ["begin %d hp 2" % dim, "new 0 %d %d" % (dim, dim % 2), "new 1 %d 0" % dim]
        for b in range(0, dim + 1):
            for a in range(-2 * dim - 2, 2 * dim + 3): out += ["bin 0 %d %d" % (a, b), "q 0"] + (["add 1 0", "q 1"] if a % 3 == 0 else [])
        res.append(out + ["end"])
    for t in range(n):
        dim = rnd.choice([0, 1, 2, 3, 4, 6, 9, 14]); nr = 3; out = ["begin %d hp %d" % (t, nr)]
        for k in range(nr): out.append("new %d %d %d" % (k, dim, rnd.randrange(2)))
        for _ in range(rnd.randrange(steps // 2, steps)):
            k, a = rnd.randrange(nr), rnd.randrange(nr); op = rnd.choice(["bin", "bin", "add", "add", "sub", "mul", "q", "q"])
            if op == "bin": out.append("bin %d %d %d" % (k, rnd.choice([rnd.randrange(-30, 31), rnd.randrange(-5, 6), rnd.randrange(-10**6, 10**6)]), rnd.randrange(dim + 1)))
            elif op == "mul": out.append("mul %d %d" % (k, rnd.choice([0, 1, -1, 2, 3, -7, 12, 1000, -99999, 2147483647, -2147483647])))
            elif op == "q": out.append("q %d" % k)
            else: out.append("%s %d %d" % (op, k, a))
        res.append(out + ["end"])
    return res
