"""Programs over the forest of Janet trees."""
import random
from janetgen import s, rmon, far

def translate(act, frm):
    if act[0] == "ins":
        return ["ins " + s(act[1]), "findbox 2"]
    return ["prol %d %d" % (act[1], act[2] - 1), "findbox 3"]

def program(rnd, tid, kind):
    n = rnd.choice([1, 2, 3, 3, 4, 5]) if kind != "wide" else 8
    out = ["begin %d gb %d" % (tid, n)]
    top = {"rand": 7, "tall": 60, "wide": 4, "loop": 5, "far": 0}[kind]
    pool = rnd.sample([1, 2, 9, 44, 127, 128, 255, 256, 257, 300, 512], 3); pool += [x % 256 for x in pool if x > 256] + [x + 256 for x in pool]
    cnt = 0
    U = []
    if kind == "loop":                          # as a completion uses it: insert by degree, prolong everything
        gens = sorted({rmon(rnd, n, top) for _ in range(rnd.randrange(2, 6))}, key=sum)
        for g in gens:
            if not sum(g): continue
            out.append("ins " + s(g)); U.append(g); cnt += 1
            for k in range(1, min(cnt, 14) + 1):
                for v in range(n):
                    if rnd.random() < .8:
                        out.append("prol %d %d" % (k, v)); 
            cnt = min(cnt + n, 16)
    else:
        for _ in range(rnd.choice([6, 12, 25])):
            if kind == "far":
                e = far(rnd, n, pool)
            elif kind == "tall":
                e = [0] * n
                for _ in range(rnd.randrange(1, 3)): e[rnd.randrange(n)] += rnd.choice([1, 2, 5, 19, 20, 21, 26, 27, 40, rnd.randrange(1, 90)])
                e = tuple(e)
            else:
                e = rmon(rnd, n, top)
            if not sum(e) and rnd.random() < .9: continue
            out.append("ins " + s(e)); U.append(e); cnt += 1
            for _ in range(rnd.randrange(3)):
                out.append("prol %d %d" % (rnd.randrange(1, cnt + 1), rnd.randrange(n)))
            for _ in range(rnd.randrange(3)):
                b = list(rnd.choice(U))
                if kind == "far" and rnd.random() < .5: b[rnd.randrange(n)] = rnd.choice(pool)
                for _ in range(rnd.randrange(0, 4)):
                    v = rnd.randrange(n); b[v] = max(0, b[v] + rnd.choice([1, 1, 2, -1]))
                out.append("find " + s(b))
    for e in U:
        out.append("find " + s(e))
    bx = {1: 9, 2: 6, 3: 4, 4: 2, 5: 1}.get(n)
    if bx: out.append("findbox %d" % bx)
    return out + ["end"]

def programs(seed, count):
    rnd = random.Random(seed * 104729 + 3)
    return [program(rnd, k, ["rand", "loop", "tall", "wide", "far"][k % 5]) for k in range(count)]
