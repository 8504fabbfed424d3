"""Programs over monomial registers."""
import random
ORDERS = [0x11, 0x12, 0x14, 0x21, 0x22, 0x24]

class Regs:
    """mirror used only to keep programs inside the preconditions of the API"""
    def __init__(self, n, nr):
        self.n, self.r = n, [None] * nr
    def live(self):
        return [k for k, m in enumerate(self.r) if m is not None]

def rexp(rnd, n, style):
    if style == 0: return [rnd.choice([0, 0, 1]) for _ in range(n)]
    if style == 1: return [rnd.randrange(4) for _ in range(n)]
    if style == 2: return [rnd.randrange(30) if rnd.random() < .5 else 0 for _ in range(n)]
    if style == 3:
        e = [0] * n
        e[rnd.randrange(n)] = rnd.randrange(1, 200)
        return e
    return [rnd.randrange(100000) for _ in range(n)]

def program(rnd, tid, n, nr, steps, orders_only=False):
    R = Regs(n, nr)
    out = ["begin %d monom %d %d" % (tid, nr, n)]
    r = R.r
    def mulpos(a, b): return b[0] if a[0] == -1 else a[0]
    poses = [-1, -1, 0, 1, 2]
    for _ in range(steps):
        L = R.live()
        k = rnd.randrange(nr)
        ops = ["zero", "var", "set", "set"]
        if L and not orders_only:
            ops += ["copy", "prol", "power", "setpos", "gc", "free", "q", "q", "div", "div", "mult", "multv", "prod", "prodm", "assign", "gl"]
            if len(L) > 1:
                ops += ["swap", "movec", "moveassign", "perm", "q3", "porder", "q"]
            ops.append("rand")
        if L and orders_only:
            ops += ["q"] * 4 + ["porder"] * 6 + ["q3"] * 5 + ["mult", "prol", "copy", "near", "near", "near"]
        op = rnd.choice(ops)
        a = rnd.choice(L) if L else 0
        b = rnd.choice(L) if L else 0
        style = rnd.choice([0, 0, 1, 1, 2, 3, 4])
        if op == "zero":
            p = rnd.choice(poses); r[k] = [p] + [0] * n; out.append("zero %d %d" % (k, p))
        elif op == "var":
            p = rnd.choice(poses); v = rnd.randrange(n); r[k] = [p] + [int(x == v) for x in range(n)]; out.append("var %d %d %d" % (k, v, p))
        elif op == "set":
            p = rnd.choice(poses); e = rexp(rnd, n, style); r[k] = [p] + e; out.append("set %d %d %s" % (k, p, " ".join(map(str, e))))
        elif op == "near":            # a monomial of the same degree, or one exponent away
            m = list(r[a])
            if rnd.random() < .7 and n > 1:
                x, y = rnd.randrange(1, n + 1), rnd.randrange(1, n + 1)
                if m[x]: m[x] -= 1; m[y] += 1
            else:
                m[rnd.randrange(1, n + 1)] += 1
            if rnd.random() < .3: m[0] = rnd.choice(poses)
            r[k] = m; out.append("set %d %d %s" % (k, m[0], " ".join(map(str, m[1:]))))
        elif op in ("copy", "gc"):
            r[k] = list(r[a]); out.append("%s %d %d" % (op, k, a))
        elif op == "prol":
            v = rnd.randrange(n); m = list(r[a]); m[v + 1] += 1; r[k] = m; out.append("prol %d %d %d" % (k, v, a))
        elif op in ("prod", "prodm"):
            if r[a][0] != -1 and r[b][0] != -1: continue
            m = [mulpos(r[a], r[b])] + [x + y for x, y in zip(r[a][1:], r[b][1:])]
            if max(m) > 10**6: continue
            r[k] = m; out.append("%s %d %d %d" % (op, k, a, b))
        elif op == "power":
            x = rnd.choice([0, 1, 2, 3, 7])
            m = [r[a][0]] + [y * x for y in r[a][1:]]
            if max(m) > 10**6: continue
            r[k] = m; out.append("power %d %d %d" % (k, a, x))
        elif op == "movec":
            if k == a: continue
            r[k], r[a] = r[a], None; out.append("movec %d %d" % (k, a))
        elif op == "moveassign":
            if b == a: continue
            r[b], r[a] = r[a], None; out.append("moveassign %d %d" % (b, a))
        elif op == "assign":
            r[b] = list(r[a]); out.append("assign %d %d" % (b, a))
        elif op == "swap":
            if a == b: continue
            r[a], r[b] = r[b], r[a]; out.append("swap %d %d" % (a, b))
        elif op == "mult":
            if a == b and r[a][0] != -1: continue
            if r[a][0] != -1 and r[b][0] != -1: continue
            m = [mulpos(r[a], r[b])] + [x + y for x, y in zip(r[a][1:], r[b][1:])]
            if max(m) > 10**6: continue
            r[a] = m; out.append("mult %d %d" % (a, b))
        elif op == "multv":
            if a == b: continue
            v = rnd.randrange(n); m = list(r[b]); m[v + 1] += 1; r[a] = m; out.append("multv %d %d %d" % (a, v, b))
        elif op == "div":
            x, y = r[a], r[b]
            if not ((y[0] == -1 or y[0] == x[0]) and all(s >= t for s, t in zip(x[1:], y[1:]))):
                # make it divisible: a := a * b first
                if a == b or not (x[0] == -1 or y[0] == -1): continue
                m = [mulpos(x, y)] + [s + t for s, t in zip(x[1:], y[1:])]
                if max(m) > 10**6: continue
                r[a] = x = m; out.append("mult %d %d" % (a, b))
            r[a] = [-1 if x[0] == y[0] else x[0]] + [s - t for s, t in zip(x[1:], y[1:])]
            out.append("div %d %d" % (a, b))
        elif op == "setpos":
            p = rnd.choice(poses); r[a] = [p] + r[a][1:]; out.append("setpos %d %d" % (a, p))
        elif op == "perm":
            if a == b: continue
            # the shuffle is the code's own choice: forget the value, restore it by assignment
            out.append("perm %d %d" % (b, a)); out.append("assign %d %d" % (b, a)); r[b] = list(r[a])
        elif op == "rand":
            d1 = rnd.randrange(1, 5); out.append("rand %d %d %d" % (a, d1, d1 + rnd.randrange(4)))
            out.append("set %d %d %s" % (a, r[a][0], " ".join(map(str, r[a][1:]))))
        elif op == "free":
            r[k] = None; out.append("free %d" % k)
        elif op == "q":
            out.append("q %d %d" % (a, b))
        elif op == "gl":
            if r[a][0] == -1 or r[b][0] == -1: out.append("gl %d %d" % (a, b))
        elif op == "q3":
            c = rnd.choice(L)
            if (r[b][0] == -1 or r[c][0] == -1): out.append("q3 %d %d %d" % (a, b, c))
        elif op == "porder":
            o = rnd.choice(ORDERS); out.append("porder %d %d %d" % (o, a, b))
            if rnd.random() < .5: out.append("porder %d %d %d" % (o, b, a))
    out.append("end")
    return out

def programs(seed, count, steps, orders_only=False):
    rnd = random.Random(seed)
    res = []
    for t in range(count):
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5, 8, 17, 25, 40]) if t % 5 else rnd.randrange(1, 4)
        res.append(program(rnd, t, n, rnd.choice([3, 4, 6]), steps, orders_only))
    return res

def translate(act, frm):
    """action of spec/Monom.tla -> driver command"""
    op, a = act[0], act[1:]
    if op == "zero": return ["zero %d %d" % (a[0] - 1, a[1])]
    if op == "var": return ["var %d %d %d" % (a[0] - 1, a[1] - 1, a[2])]
    if op in ("copy", "gc", "movec", "moveassign", "assign", "swap", "mult", "div"): return ["%s %d %d" % (op, a[0] - 1, a[1] - 1)]
    if op in ("prol", "multv"): return ["%s %d %d %d" % (op, a[0] - 1, a[1] - 1, a[2] - 1)]
    if op == "power": return ["power %d %d %d" % (a[0] - 1, a[1] - 1, a[2])]
    if op in ("prod", "prodm"): return ["%s %d %d %d" % (op, a[0] - 1, a[1] - 1, a[2] - 1)]
    if op == "setpos": return ["setpos %d %d" % (a[0] - 1, a[1])]
    if op == "free": return ["free %d" % (a[0] - 1)]
    raise KeyError(op)
