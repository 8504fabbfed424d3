"""Programs over the Janet trees and forests of the pure Python package."""
import random
ORDERS = [0x11, 0x12, 0x21, 0x22]

def translate(act, frm):
    n, op, a = frm[0], act[0], act[1:]
    q = ["findbox -1 3", "mindeg", "hp -1"]
    if op == "ins": return ["ins -1 " + " ".join(map(str, a[0]))] + q
    if op == "insq": return ["insq 0 " + " ".join(map(str, a[0] + a[1]))] + q
    return ["pall"] + q

def mono(rnd, n, style):
    if style == "deep": return [rnd.choice([0, 0, 1, 3, rnd.randrange(40)]) for _ in range(n)]
    if style == "flat": return [rnd.choice([0, 0, 1]) for _ in range(n)]
    if style == "pure":
        e = [0] * n; e[rnd.randrange(n)] = rnd.randrange(1, 6)
        if rnd.random() < .4: e[rnd.randrange(n)] += rnd.randrange(3)
        return e
    return [rnd.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(n)]

def program(rnd, tid, kind):
    n = rnd.choice([1, 2, 2, 3, 3, 3, 4, 5]) if kind != "wide" else rnd.choice([8, 20])
    K = rnd.choice([0, 0, 0, 1, 2, 3])
    inv = rnd.choice(["janet", "janet", "cache"])
    out = ["begin %d pyjanet %s %d %d %d" % (tid, inv, rnd.choice(ORDERS), n, K)]
    style = {"wide": "flat", "complete": "pure"}.get(kind) or rnd.choice(["rand", "deep", "flat", "pure"])
    poses = [-1] if not K else range(K)
    one = lambda: "%d %s" % (rnd.choice(poses), " ".join(map(str, mono(rnd, n, style))))
    box = {1: 6, 2: 4, 3: 3}.get(n, 2 if n == 4 else 1)
    if n > 5: box = 0
    if kind == "complete":               # an involutive completion of monomials
        out.append("insn " + " ".join(one() for _ in range(rnd.randrange(1, 4 if n < 4 else 3))))
        for _ in range(rnd.randrange(3, 9)):
            out += ["mindeg", rnd.choice(["pdeg 0", "pall", "pall", "pdeg %d" % rnd.randrange(1, 8), "pmon " + one()])]
            out += ["insq %d" % rnd.choice([0, 0, rnd.randrange(1000)]) for _ in range(rnd.randrange(6, 14))]
            if rnd.random() < .3: out.append("hp -1")
        out += ["findbox %d %d" % (p, min(box, 3)) for p in poses if rnd.random() < .7] + ["hp -1"]
    else:
        for _ in range(rnd.randrange(8, 30)):
            r = rnd.random()
            if r < .45: out.append("ins " + one())
            elif r < .52: out.append("insn " + " ".join(one() for _ in range(rnd.randrange(1, 5))))
            elif r < .62: out.append(rnd.choice(["pall", "pdeg %d" % rnd.randrange(7), "pmon " + one(), "pmon " + one()]))
            elif r < .72: out.append("insq %d" % rnd.randrange(1000))
            elif r < .75: out.append("ins %d %s" % (rnd.choice(poses), " ".join(["0"] * n)) if rnd.random() < .2 else "mindeg")
            elif r < .92: out.append("find " + one())
            elif r < .94: out.append("hp -1")
            elif r < .96 and K: out.append("hp %d" % rnd.randrange(K + 1))
            elif r < .97: out.append("comb %d %d" % (rnd.randrange(1, 9), rnd.randrange(0, 9)))
            elif box: out.append("findbox %d %d" % (rnd.choice(poses), min(box, 3)))
    return out + ["mindeg", "end"]

def programs(seed, count):
    rnd = random.Random(seed * 47 + 9)
    return [program(rnd, t, ["rand", "rand", "complete", "wide"][t % 4] if t % 16 != 3 else "complete") for t in range(count)]
