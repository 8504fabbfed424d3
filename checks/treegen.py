"""Programs over red-black trees."""
import random, itertools

def translate(act, frm):
    return ["%s 0 %d" % (act[0], act[1])] 

def program(rnd, tid, nt, hi, steps, grow):
    S = [None] * nt
    out = ["begin %d tree %d" % (tid, nt)]
    for d in range(nt): S[d] = set(); out.append("new %d %d" % (d, rnd.randrange(2)))
    mode = rnd.randrange(4)
    nxt = 0
    while len(out) < steps:
        d, a = rnd.randrange(nt), rnd.randrange(nt)
        op = rnd.choices(["ins", "rem", "remit", "remmin", "remmax", "probe", "copy", "assign", "swap", "movec", "clear", "new"],
                         [20 + 20 * grow, 10, 8, 2, 2, 8, 1.5, 1.5, 1.5, 1, .4, .4])[0]
        if op == "ins":
            x = rnd.randrange(hi)
            if mode == 1: x = nxt = (nxt + 1) % hi
            if mode == 2: x = nxt = (nxt - 1) % hi
            if x not in S[d]: S[d].add(x); out.append("ins %d %d" % (d, x))
        elif op in ("rem", "remit"):
            if S[d]: x = rnd.choice(sorted(S[d])); S[d].discard(x); out.append("%s %d %d" % (op, d, x))
        elif op in ("remmin", "remmax"):
            if S[d]: S[d].discard((min if op == "remmin" else max)(S[d])); out.append("%s %d" % (op, d))
        elif op == "probe":
            ks = range(-0, hi + 1) if hi <= 12 else sorted(rnd.sample(range(hi + 1), 8))
            out.append("probe %d %s" % (d, " ".join(map(str, ks))))
        elif op == "copy":
            if d != a: S[d] = set(S[a]); out.append("copy %d %d %d" % (d, a, rnd.randrange(2)))
        elif op in ("assign", "swap", "movec"):
            if d == a: continue
            if op == "assign": S[d] = set(S[a])
            elif op == "swap": S[d], S[a] = S[a], S[d]
            else: S[d], S[a] = S[a], set()
            out.append("%s %d %d" % (op, d, a))
        else:
            S[d] = set(); out.append("clear %d" % d if op == "clear" else "new %d %d" % (d, rnd.randrange(2)))
    for d in range(nt): out.append("probe %d %s" % (d, " ".join(map(str, range(min(hi, 60) + 1)))))
    if rnd.random() < .5:                         # take everything out again
        for d in range(nt):
            ks = sorted(S[d]); rnd.shuffle(ks)
            for x in ks: out.append("rem %d %d" % (d, x))
    return out + ["end"]

def big(rnd, tid, n):
    """trees of many nodes, few steps"""
    S = set(); out = ["begin %d tree 2" % tid, "new 0 0", "new 1 1"]
    mode = rnd.randrange(4)
    while len(S) < n:
        k = rnd.choice([n // 3, n // 2, 40])
        if mode == 0: xs = [x for x in range(len(S), len(S) + k)]
        elif mode == 1: xs = [10 * n - x for x in range(len(S), len(S) + k)]
        else: xs = rnd.sample(range(10 * n), k)
        xs = [x for x in xs if x not in S]
        if xs: S |= set(xs); out.append("inss 0 " + " ".join(map(str, xs)))
    T = set(S)
    out += ["copy 1 0 0", "probe 1 " + " ".join(map(str, rnd.sample(range(10 * n), 40) + rnd.sample(sorted(T), 40)))]
    while S:
        k = min(len(S), rnd.choice([1, n // 3, n // 2, 40]))
        o = sorted(S)
        xs = [o[:k], o[-k:], rnd.sample(o, k), rnd.sample(o, k)][rnd.randrange(4) if mode == 3 else mode % 4]
        S -= set(xs); out.append("rems 0 " + " ".join(map(str, xs)))
        if rnd.random() < .2: out.append("probe 0 " + " ".join(map(str, rnd.sample(range(10 * n), 20))))
        if len(out) > 14: break
    return out + ["swap 0 1", "assign 1 0", "end"]
def bigs(seed, n, most):
    rnd = random.Random(seed * 14 + 4)
    return [big(rnd, t, rnd.choice([300, 700, most])) for t in range(n)]

def programs(seed, n, steps):
    rnd = random.Random(seed * 14 + 3)
    return [program(rnd, t, rnd.choice([1, 1, 2, 3]), rnd.choice([6, 10, 12, 40, 150, 1000]), rnd.randrange(steps // 3, steps), rnd.choice([0, 0, 1, 3])) for t in range(n)]
