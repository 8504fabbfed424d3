"""Programs over the monomials of the pure Python package."""
import random, itertools
import monomgen
ORDERS = [0x11, 0x12, 0x21, 0x22]

def translate(act, frm):
    op, a = act[0], act[1:]
    q = ["pq %d %d" % (i, j) for i in (0, 1) for j in (0, 1) if frm[1][i] != [] and frm[1][j] != []]
    if op == "zero": return ["zero %d %d" % (a[0] - 1, a[1])]
    if op == "var": return ["var %d %d" % (a[0] - 1, a[1] - 1)]
    if op == "prol": return ["prol %d %d %d" % (a[0] - 1, a[1] - 1, a[2] - 1)]
    if op == "power": return ["power %d %d %d" % (a[0] - 1, a[1] - 1, a[2])]
    return [op + " " + " ".join(str(x - 1) for x in a)]

def program(rnd, tid, steps):
    n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 9, 20])
    K = rnd.choice([0, 0, 1, 2, 3, 5])
    nr = rnd.choice([2, 3, 4])
    R = monomgen.Regs(n, nr); r = R.r
    poses = [-1, -1] + list(range(K))
    out = ["begin %d pymonom %d %d %d %d" % (tid, nr, rnd.choice(ORDERS), n, K)]
    for _ in range(steps):
        L = R.live(); k = rnd.randrange(nr)
        ops = ["zero", "var", "set", "set", "gradus"]
        if L: ops += ["copy", "prol", "prod", "prod", "power", "cdiv", "cdiv", "lcm", "lcm", "gcd", "free", "pq", "pq", "pq", "pq", "near", "near", "near"]
        op = rnd.choice(ops)
        a = rnd.choice(L) if L else 0
        b = rnd.choice(L) if L else 0
        p = rnd.choice(poses)
        if op == "zero": r[k] = [p] + [0] * n; out.append("zero %d %d" % (k, p))
        elif op == "var": v = rnd.randrange(n); r[k] = [-1] + [int(x == v) for x in range(n)]; out.append("var %d %d" % (k, v))
        elif op == "set": e = monomgen.rexp(rnd, n, rnd.choice([0, 0, 1, 1, 2, 3, 4])) if n < 9 else monomgen.rexp(rnd, n, rnd.choice([0, 1, 2])); r[k] = [p] + e; out.append("set %d %d %s" % (k, p, " ".join(map(str, e))))
        elif op == "near":
            m = list(r[a])
            for _ in range(rnd.choice([1, 1, 2])):
                x, y = rnd.randrange(1, n + 1), rnd.randrange(1, n + 1)
                if m[x]: m[x] -= 1; m[y] += 1
            if rnd.random() < .4: m[0] = p
            if k == a: continue
            r[k] = m; out.append("set %d %d %s" % (k, m[0], " ".join(map(str, m[1:]))))
            if max(m[1:]) <= 60: out += ["pq %d %d" % (a, k), "pq %d %d" % (k, a)]
        elif op == "copy": r[k] = list(r[a]); out.append("copy %d %d" % (k, a))
        elif op == "prol": v = rnd.randrange(n); m = list(r[a]); m[v + 1] += 1; r[k] = m; out.append("prol %d %d %d" % (k, v, a))
        elif op == "prod":
            if r[a][0] != -1 and r[b][0] != -1: continue
            m = [max(r[a][0], r[b][0])] + [x + y for x, y in zip(r[a][1:], r[b][1:])]
            if max(m) > 10 ** 6: continue
            r[k] = m; out.append("prod %d %d %d" % (k, a, b))
        elif op == "power":
            x = rnd.choice([0, 1, 2, 3, 7])
            if r[a][0] != -1 or max(r[a]) * x > 10 ** 6: continue
            r[k] = [-1] + [y * x for y in r[a][1:]]; out.append("power %d %d %d" % (k, a, x))
        elif op == "cdiv":
            x, y = r[a], r[b]
            if not ((y[0] == -1 or y[0] == x[0]) and all(s >= t for s, t in zip(x[1:], y[1:]))):
                z = rnd.choice([j for j in range(nr) if j != b])
                if not (x[0] == -1 or y[0] == -1): continue
                m = [max(x[0], y[0])] + [s + t for s, t in zip(x[1:], y[1:])]
                if max(m) > 10 ** 6: continue
                out.append("prod %d %d %d" % (z, a, b)); r[z] = x = m; a = z
            r[k] = [-1 if x[0] == y[0] else x[0]] + [s - t for s, t in zip(x[1:], y[1:])]
            out.append("cdiv %d %d %d" % (k, a, b))
        elif op in ("lcm", "gcd"):
            x, y = r[a], r[b]
            if x[0] != -1 and y[0] != -1 and x[0] != y[0]: continue
            f = max if op == "lcm" else min
            r[k] = [max(x[0], y[0]) if op == "lcm" else -1] + [f(s, t) for s, t in zip(x[1:], y[1:])]
            out.append("%s %d %d %d" % (op, k, a, b))
        elif op == "free": r[a] = None; out.append("free %d" % a)
        elif op == "pq":
            if max(r[a][1:] or [0]) <= 60: out.append("pq %d %d" % (a, b))
        elif op == "gradus": out.append("gradus %d %d" % (rnd.randrange(0, 4 if n < 9 else 2), p))
    return out + ["end"]

def boxes(n, mx, K, order, first):
    mons = [(p,) + e for p in range(-1, K) for e in itertools.product(range(mx + 1), repeat=n)]
    progs = []
    for k, a in enumerate(mons):
        out = ["begin %d pymonom 2 %d %d %d" % (first * 1000 + k, order, n, K), "set 0 " + " ".join(map(str, a))]
        for b in mons: out += ["set 1 " + " ".join(map(str, b)), "pq 0 1"]
        progs.append(out + ["end"])
    return progs

def programs(seed, count, steps):
    rnd = random.Random(seed * 41 + 3)
    return [program(rnd, t, steps) for t in range(count)]
