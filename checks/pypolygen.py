"""Programs over the polynomials of the pure Python package."""
import random
ORDERS = [0x11, 0x12, 0x21, 0x22]

def bigs(b): return b[0] * sum(d * 10000 ** i for i, d in enumerate(b[1:]))
def translate(act, frm):
    op, a = act[0], act[1:]
    q = ["q 0 1", "q 1 0"]
    if op == "mono": return ["mono %d %s" % (a[0] - 1, " ".join(map(str, a[1])))] + q
    if op == "const": return ["const %d %d" % (a[0] - 1, bigs(a[1]))] + q
    if op in ("addc", "rsubc", "multc", "divc", "rdivc"):
        p, d = bigs(a[2]), bigs(a[3])
        if op[0] == "r" and d != 1: return []
        alt = {"addc": "raddc", "multc": "rmultc"}.get(op)
        r = ["%s %d %d %s" % (op, a[0] - 1, a[1] - 1, "%d/%d" % (p, d) if d != 1 else str(p))]
        if alt and d == 1 and (a[0] == a[1] or p == 1): r[0] = alt + r[0][len(op):]
        return r + q
    if op in ("prol", "diff"): return ["%s %d %d %d" % (op, a[0] - 1, a[1] - 1, a[2] - 1)]
    if op == "pow": return ["pow %d %d %d" % (a[0] - 1, a[1] - 1, a[2])]
    return [op + " " + " ".join(str(x - 1) for x in a)]

def rcoef(rnd, st):
    k = rnd.random()
    if st["frac"] and k < .3: return "%d/%d" % (rnd.choice([1, -1, 3, 5, -7, 10, 101]), rnd.choice([1, 2, 3, 4, 6, 9, 10007]))
    if k < .7: return str(rnd.choice([1, 1, -1, 2, -3, 5, -4, 6]))
    if k < .85 or not st["big"]: return str(rnd.randrange(-999, 1000) or 1)
    return str(rnd.choice([1, -1]) * rnd.randrange(1, 10 ** rnd.randrange(5, 30)))

def rmono(rnd, n, mx, poses):
    e = [0] * n
    for _ in range(rnd.randrange(mx + 1)): e[rnd.randrange(n)] += 1
    return [rnd.choice(poses)] + e

def rterm(rnd, st, mx=None, poses=None):
    m = rmono(rnd, st["n"], st["mx"] if mx is None else mx, poses or st["poses"])
    if st.get("diff") and m[0] == -1: m = [-1] + [0] * st["n"]
    c = [rnd.choice([0, 0, 0, 1, 2]) for _ in range(st["r"])]
    return "%s %s" % (rcoef(rnd, st), " ".join(map(str, m + c)))

def rpoly(rnd, st, terms):
    k = rnd.randrange(terms + 1)
    return " ".join([str(k)] + [rterm(rnd, st) for _ in range(k)])

def program(rnd, tid, steps, kind="pypoly"):
    n = rnd.choice([1, 2, 2, 3, 3, 4, 7])
    K = rnd.choice([0, 0, 1, 2, 3])
    r = rnd.choice([0, 0, 0, 0, 1, 1, 2])
    diff = kind == "pydiff"
    if kind != "pypoly": K = rnd.choice([1, 1, 2, 3])
    if diff: n = rnd.choice([1, 2, 2, 3]); r = n + rnd.choice([0, 0, 0, 1])
    st = dict(n=n, K=K, r=r, mx=rnd.choice([1, 2, 3, 4]), frac=rnd.random() < .4, big=rnd.random() < .4)
    st["diff"] = diff
    if diff: st["mx"] = rnd.choice([1, 2, 2, 3])
    st["poses"] = rnd.choice([list(range(K)), list(range(K)), [-1] + list(range(K))]) if diff else list(range(K)) if kind == "pyschem" and rnd.random() < .8 else [-1] if not K else rnd.choice([[-1], list(range(K)), list(range(K)), [-1] + list(range(K))])
    nr = rnd.choice([3, 4, 5])
    terms = 5 if not r else 3
    out = ["begin %d %s %d %d %d %d %d" % (tid, kind, nr, rnd.choice(ORDERS), n, K, r)]
    R = lambda: rnd.randrange(nr)
    for k in range(nr): out.append("set %d %s" % (k, rpoly(rnd, st, terms)))
    ops = ["set", "set", "set", "const", "mono", "copy", "pos", "neg", "opadd", "opadd", "opsub", "opsub", "opmult", "opmult", "num", "num", "num", "pow", "prol",
           "multt", "sp", "cancel", "pp", "red", "red", "redrat", "redrat", "reduce", "nfhead", "nftail", "nf", "made", "made", "made", "vanish", "alias", "alias", "q", "q", "q"]
    if r: ops += ["diff", "diff", "hidden", "hidden"]
    if diff: ops = [x for x in ops if x not in ("sp", "multt", "redrat", "red", "hidden", "pow")] + ["derived"] * 8 + ["prol"] * 5 + ["times"] * 4 + ["d2p", "d2p", "red"]
    if kind != "pypoly": ops += ["df", "df"]
    free = lambda m: [-1] + [0] * n if diff and m[0] == -1 else m
    # values are bounded: every few steps the registers are set afresh
    since = 0
    for _ in range(steps):
        op = rnd.choice(ops); d, a, b = R(), R(), R()
        since += 1
        if since > 9:
            since = 0
            for k in range(nr):
                if rnd.random() < .7: out.append("set %d %s" % (k, rpoly(rnd, st, terms)))
        if op == "set": out.append("set %d %s" % (d, rpoly(rnd, st, rnd.choice([1, 2, 3, terms]))))
        elif op == "const": out.append("const %d %s" % (d, rnd.choice(["0", "1", "-1", "7", "-12345678901"])))
        elif op == "mono": out.append("mono %d %s" % (d, " ".join(map(str, free(rmono(rnd, n, st["mx"], st["poses"]))))))
        elif op == "df":
            vs = ["%d" % rnd.randrange(n) + rnd.choice(["", "", ":1", ":2", ":3"]) for _ in range(rnd.randrange(4))]
            out.append("df %d %d %s" % (d, rnd.randrange(K), " ".join(vs)))
        elif op == "d2p": out.append("d2p %d %s" % (d, rpoly(rnd, st, terms)))
        elif op == "times":              # a function of the coefficients times an expression
            if len({d, a, b}) < 3: continue
            out += ["set %d 2 %s %s" % (b, rterm(rnd, st, poses=[-1]), rterm(rnd, st, poses=[-1])), rnd.choice(["opmult %d %d %d" % (d, a, b), "opmult %d %d %d" % (d, b, a)])]
        elif op == "derived":            # d := term * derivative of a + b, then reduced by a
            if len({d, a, b}) < 3: continue
            if rnd.random() < .5: out.append("set %d %d %s" % (a, 2, " ".join([rterm(rnd, st, poses=list(range(K))), rterm(rnd, st)])))
            elif rnd.random() < .5: out.append("mono %d %s" % (a, " ".join(map(str, rmono(rnd, n, 2, list(range(K))))))) ; out.append("opadd %d %d %d" % (a, a, b))
            out += ["copy %d %d" % (d, a)]
            for _ in range(rnd.randrange(3)): out.append("prol %d %d %d" % (d, rnd.randrange(n), d))
            out += ["multc %d %d %s" % (d, d, rcoef(rnd, st)), "set %d %s" % (b, rpoly(rnd, st, 2)), "opadd %d %d %d" % (d, d, b)]
            out.append("%s %d %d" % (rnd.choice(["nf", "nf", "nfhead", "nftail", "reduce"]), d, a)); out.append("q %d %d" % (d, a))
        elif op in ("copy", "pos", "neg"): out.append("%s %d %d" % (op, d, a))
        elif op in ("opadd", "opsub", "opmult", "sp"): out.append("%s %d %d %d" % (op, d, a, b))
        elif op == "num":
            o = rnd.choice(["addc", "raddc", "subc", "rsubc", "multc", "rmultc", "divc", "rdivc"])
            c = rnd.choice([rcoef(rnd, st), "0", "1", "-1", "2", "1/1", "0/1"])
            if o == "rdivc" and rnd.random() < .8: out.append("const %d %s" % (a, rnd.choice(["2", "-3", "1"])))
            out.append("%s %d %d %s" % (o, d, a, c))
        elif op == "pow": out.append("pow %d %d %d" % (d, a, rnd.choice([0, 0, 1, 1, 2, 2, 3])))
        elif op == "prol": out.append("prol %d %d %d" % (d, rnd.randrange(n), a))
        elif op == "diff": out.append("diff %d %d %d" % (d, rnd.randrange(r), a))
        elif op == "multt": out.append("multt %d %d %s %s" % (d, a, rcoef(rnd, st), " ".join(map(str, rmono(rnd, n, 2, rnd.choice([[-1], st["poses"]]))))))
        elif op in ("cancel", "pp"): out.append("%s %d" % (op, d))
        elif op in ("red", "redrat"): out.append("%s %d %d %d" % (op, d, rnd.randrange(8), a))
        elif op in ("reduce", "nfhead", "nftail", "nf"): out.append("%s %d %d" % (op, d, a))
        elif op == "made":               # d := term * a + b, then reduced by a
            if len({d, a, b}) < 3: continue
            out += ["multt %d %d %s %s" % (d, a, rcoef(rnd, st), " ".join(map(str, rmono(rnd, n, 2, [-1])))), "opadd %d %d %d" % (d, d, b)]
            o = rnd.choice(["red", "red", "redrat", "redrat", "nf", "nfhead", "nftail", "reduce"])
            out.append("%s %d %d %d" % (o, d, rnd.randrange(8), a) if o[:3] == "red" and o != "reduce" else "%s %d %d" % (o, d, a))
        elif op == "vanish":             # sums that lose terms
            if len({d, a, b}) < 3: continue
            out += ["opadd %d %d %d" % (d, a, b), rnd.choice(["opsub %d %d %d" % (d, d, a), "opsub %d %d %d" % (d, a, d), "neg %d %d" % (b, a)])]
            out.append("opadd %d %d %d" % (d, d, b))
        elif op == "alias":              # change the result of an operation in place, then read the operands
            if d == a: continue
            o = rnd.choice(["copy %d %d", "pos %d %d", "addc %d %d 0", "subc %d %d 0", "multc %d %d 1", "raddc %d %d 0", "rmultc %d %d 1", "pow %d %d 1", "neg %d %d",
                            "divc %d %d 1", "opadd %d %d {0}", "opsub %d %d {0}", "opadd %d {0} %d", "opsub %d {0} %d", "addc %d %d 3", "multc %d %d 2"])
            if "{0}" in o:
                z = b if b not in (d, a) else d
                out.append("set %d %s" % (z, rnd.choice(["0", rpoly(rnd, st, 2)]))); o = o.format(z)
            out.append(o % (d, a))
            g = rnd.choice([x for x in range(nr) if x != d])
            out.append(rnd.choice(["pp %d" % d, "cancel %d" % d, "red %d 0 %d" % (d, g), "redrat %d 0 %d" % (d, g), "red %d 1 %d" % (d, a), "red %d 3 %d" % (d, g), "nf %d %d" % (d, g), "nfhead %d %d" % (d, g)]))
        elif op == "hidden":             # (t+1)(t-1) - t^2 + 1: coefficients that vanish only when multiplied out
            if len({d, a, b}) < 3: continue
            z, k = [0] * r, rnd.randrange(r)
            def T(c, i, j): e = list(z); e[k] = j; return "%d %s" % (c, " ".join(map(str, [-1] + [0] * i + [int(False)] * (n - i) + e)))
            m = rmono(rnd, n, 2, [-1])[1:]
            def t(c, mm, p, j): e = list(z); e[k] = j; return "%d %s" % (c, " ".join(map(str, [p] + mm + e)))
            p = rnd.choice(st["poses"])
            c = rnd.choice([1, 1, 2, 3])
            out += ["set %d 3 %s %s %s" % (a, t(1, m, -1, 1), t(c, m, -1, 0), t(1, [0] * n, -1, 0)), "set %d 2 %s %s" % (b, t(1, m, p, 1), t(-c, m, p, 0)), "opmult %d %d %d" % (d, a, b),
                    "opmult %d %d %d" % (a, a, b) if rnd.random() < .3 else "q %d %d" % (d, a),
                    "set %d 2 %s %s" % (b, t(1, [2 * x for x in m], p, 2), t(-c * c, [2 * x for x in m], p, 0)), rnd.choice(["opsub %d %d %d" % (d, d, b), "opsub %d %d %d" % (d, b, d)]), "q %d %d" % (d, b)]
        elif op == "q": out.append("q %d %d" % (a, b))
    return out + ["end"]

def programs(seed, count, steps, kind="pypoly"):
    rnd = random.Random(seed * 43 + 7 + len(kind) * 1000 * (kind != "pypoly"))
    return [program(rnd, t, steps, kind) for t in range(count)]

def larges(seed, n):
    """polynomials of hundreds of terms, few steps"""
    import polygen
    rnd = random.Random(seed * 23 + 9); res = []
    for t in range(n):
        k = rnd.choice([2, 3, 4]); order = rnd.choice(ORDERS); K = rnd.choice([0, 2]); mx = {2: 30, 3: 12, 4: 6}[k]
        poses = [-1] if not K else [0, 1]
        m = rnd.choice([80, 130, 200])
        out = ["begin %d pypoly 4 %d %d %d 0" % (t, order, k, K)]
        for d in (0, 2): out.append("set %d %s" % (d, polygen.dense(rnd, k, poses, m, mx, False)))
        out.append("set 1 %s" % polygen.dense(rnd, k, [-1], rnd.choice([3, 6]), mx, False))
        ops = ["opadd 3 0 2", "opsub 3 0 2", "opsub 2 2 0", "opmult 3 1 0", "opmult 3 0 1", "neg 2 0", "multc 0 0 3", "rsubc 2 0 5" if not K else "divc 2 0 7", "opadd 0 0 2", "q 3 0", "pp 0"]
        out += rnd.sample(ops, 5)
        res.append(out + ["q 0 1", "q 2 0", "end"])
    return res
