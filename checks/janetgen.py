"""Programs over Janet trees and monomial completions."""
import random, itertools

def nmv(U, u, v):
    return any(w[v] > u[v] and w[:v] == u[:v] for w in U)
def jfind(U, m):
    for u in U:
        if all(a <= b for a, b in zip(u, m)) and not any(m[v] > u[v] and nmv(U, u, v) for v in range(len(m))):
            return u
def complete(U, cap=60):
    """the Janet completion, or None when it grows beyond cap"""
    U = [tuple(u) for u in U]
    work = True
    while work:
        work = False
        for u in list(U):
            for v in range(len(u)):
                if nmv(U, u, v):
                    p = u[:v] + (u[v] + 1,) + u[v + 1:]
                    if not jfind(U, p):
                        U.append(p); work = True
                        if len(U) > cap:
                            return None
    return U

def translate(act, frm):
    if act[0] == "ins":
        return ["ins -1 " + " ".join(map(str, act[1]))] + (["findbox %d" % 3, "hp"] if len(frm[1]) >= 2 else [])
    return [act[0]] + ["findbox 2"] * (act[0] != "find")

def s(e): return " ".join(map(str, e))

def rmon(rnd, n, top, tot=99):
    e = [0] * n
    for _ in range(rnd.randrange(0, top + 1)):
        e[rnd.randrange(n)] += 1
    return tuple(e)

def program(rnd, tid, kind):
    n = rnd.choice([1, 2, 2, 3, 3, 4, 5]) if kind != "wide" else rnd.choice([8, 12])
    top = {1: 12, 2: 9, 3: 7, 4: 6, 5: 5}.get(n, 4)
    out = ["begin %d janet %d %d" % (tid, n, rnd.randrange(2))]
    U = []
    cap = rnd.choice([6, 12, 25])
    if kind == "complete":                      # a complete set inserted in random order
        gens = [rmon(rnd, n, top) for _ in range(rnd.randrange(1, 5))]
        gens = [g for g in gens if sum(g)] or [tuple([1] + [0] * (n - 1))]
        C = complete(sorted(set(gens)), 28)
        if C is None:
            return program(rnd, tid, "rand")
        C = sorted(set(C)); rnd.shuffle(C)
        ins = C
    else:
        ins = [rmon(rnd, n, top) for _ in range(cap * 2)]
        if kind == "deep":                      # long chains in few variables
            ins = [tuple(rnd.randrange(0, 40) if rnd.random() < .6 else 0 for _ in range(n)) for _ in range(cap)]
    pos = rnd.choice([-1, -1, 0, 1, 3])
    for e in ins:
        if len(U) >= cap and kind != "complete": break
        if not sum(e) and rnd.random() < .8: continue
        out.append("ins %d %s" % (pos, s(e)))
        if not jfind(U, e): U.append(tuple(e))
        x = rnd.random()
        if x < .12: out.append("copytree")
        elif x < .2: out.append("swaptree")
        elif x < .3: out.append("hp")
        for _ in range(rnd.randrange(4)):
            b = list(rnd.choice(U)) if U else [0] * n
            for _ in range(rnd.randrange(0, 4)):
                v = rnd.randrange(n); b[v] = max(0, b[v] + rnd.choice([1, 1, 2, -1]))
            out.append("find " + s(b))
    bx = {1: 13, 2: 9, 3: 5, 4: 3, 5: 2}.get(n)
    if U:
        out.append("hp")
        if bx: out.append("findbox %d" % bx)
        out.append("copytree"); out.append("hp")
        out.append("find " + s(rmon(rnd, n, top + 3)))
    return out + ["end"]

EDGES = [1, 2, 9, 44, 127, 128, 255, 256, 257, 300, 512, 1000, 4095, 32767, 32768, 65535, 65536, 70000]
def far(rnd, n, pool):
    """exponents far apart and congruent to each other modulo powers of two"""
    return tuple(0 if rnd.random() < .4 else max(0, rnd.choice(pool) + rnd.choice([0, 0, 0, 1, -1])) for _ in range(n))
def huge_program(rnd, tid):
    n = rnd.choice([1, 2, 2, 3, 4])
    pool = rnd.sample(EDGES, rnd.randrange(2, 5)); pool += [x % 256 for x in pool if x > 256] + [x + 256 for x in pool]
    out = ["begin %d janet %d %d" % (tid, n, rnd.randrange(2))]
    U = []
    for _ in range(rnd.choice([4, 8, 16])):
        e = far(rnd, n, pool)
        if not sum(e): continue
        out.append("ins -1 " + s(e)); U.append(e)
        if rnd.random() < .15: out.append(rnd.choice(["copytree", "swaptree"]))
        for _ in range(rnd.randrange(1, 4)):
            b = list(rnd.choice(U))
            for _ in range(rnd.randrange(0, 3)): b[rnd.randrange(n)] = rnd.choice(pool + [0])
            out.append("find " + s(b))
    if U: out.append("hp")
    return out + ["end"]

def programs(seed, count, kinds):
    rnd = random.Random(seed * 7919 + 5)
    return [(huge_program(rnd, k) if kinds[k % len(kinds)] == 'huge' else program(rnd, k, kinds[k % len(kinds)])) for k in range(count)]

# ----------------------------------------------------------- completions
def deglex(a, b):
    if sum(a) != sum(b): return 1 if sum(a) > sum(b) else -1
    for x, y in zip(reversed(a), reversed(b)):
        if x != y: return -1 if x > y else 1
    return 0
def lex(a, b): return (a > b) - (a < b)
def cmpk(kind, x, y):
    o = deglex if kind.startswith("deglex") else lex
    if kind == "GB": r = (sum(y[1]) > sum(x[1])) - (sum(y[1]) < sum(x[1]))
    elif kind.endswith("GB"): r = o(x[1], y[1])
    else: r = 0
    return r or o(x[0], y[0])
def first_over(w, u):
    for v in range(len(u)):
        if w[v] > u[v]: return v
    return -1
def order_complete(kind, gens, cap):
    """mirror used only to keep the programs affordable"""
    E = []
    for g in gens:
        if not any(cmpk(kind, (g, g), x) == 0 for x in E): E.append((g, g))
    while True:
        F = [{first_over(w[0], u[0]) for w in E if cmpk(kind, w, u) > 0} for u in E]
        new = False
        for u, f in zip(list(E), F):
            for v in f:
                if v < 0: continue
                p = u[0][:v] + (u[0][v] + 1,) + u[0][v + 1:]
                if not any(all(a <= b for a, b in zip(x[0], p)) and not any(p[k] > x[0][k] and k in g for k in range(len(p))) for x, g in zip(E, F)):
                    E.append((p, u[1])); new = True
                    break
            if new: break
            if len(E) > cap: return None
        if not new: return E

KINDS = ["janet", "lex", "deglex", "janet", "lexGB", "deglexGB", "GB"]
def compl_program(rnd, tid, kind, hp):
    cap = 26
    while True:
        n = rnd.choice([1, 2, 2, 3, 3, 4])
        top = {1: 9, 2: 7, 3: 5, 4: 4}[n]
        rounds = [[rmon(rnd, n, top) for _ in range(rnd.randrange(1, 5))]]
        if rnd.random() < .4: rounds.append([rmon(rnd, n, top) for _ in range(rnd.randrange(1, 3))])
        if rnd.random() < .9: rounds = [[g for g in r if sum(g)] for r in rounds]
        if not rounds[0]: continue
        if kind == "janet":
            ok = complete(sum(rounds, []), cap) is not None
        elif kind == "alex":
            ok = True
        else:
            ok = all(order_complete(kind, sum(rounds[:k + 1], []), cap) is not None for k in range(len(rounds)))
        if ok: break
    out = ["begin %d compl %s %d" % (tid, kind, n)]
    U = []
    bx = {1: 10, 2: 8, 3: 5, 4: 3}[n]
    if kind == "alex":
        kind2 = rnd.choice(["alex", "alexGB"])
        out = ["begin %d compl %s %d" % (tid, kind2, n)]
    for r in rounds:
        for g in r:
            out.append("push " + s(g)); U.append(g)
            if rnd.random() < .2: out.append("findbox 2")
        if kind == "janet" and rnd.random() < .3: out.append("hp")
        if kind != "alex":
            out.append("build")
            if rnd.random() < .2: out.append("build")
        for _ in range(rnd.randrange(4)):
            b = list(rnd.choice(U))
            for _ in range(rnd.randrange(0, 5)):
                v = rnd.randrange(n); b[v] = max(0, b[v] + rnd.choice([1, 1, 2, -1]))
            out.append("find " + s(b))
        out.append("findbox %d" % bx)
        if kind == "janet": out.append("hp")
    return out + ["end"]

def compl_programs(seed, count, kinds=None, hp=True):
    rnd = random.Random(seed * 1299709 + 11)
    ks = kinds or KINDS + ["alex"]
    return [compl_program(rnd, k, ks[k % len(ks)], hp) for k in range(count)]

def antichains(n, top):
    """the minimal generators of every monomial ideal generated in a box, but the zero ideal"""
    box = sorted(itertools.product(range(top + 1), repeat=n))
    def le(a, b): return all(x <= y for x, y in zip(a, b))
    def rec(k, chosen):
        if k == len(box):
            if chosen: yield tuple(chosen)
            return
        yield from rec(k + 1, chosen)
        if not any(le(c, box[k]) for c in chosen):              # lexicographic: a later one never divides an earlier one
            chosen.append(box[k]); yield from rec(k + 1, chosen); chosen.pop()
    return list(rec(0, []))

def ideal_programs(seed, n, top, kinds, every=1, box=None):
    """every monomial ideal of the box, its generators in random order, completed and looked up everywhere"""
    rnd = random.Random(seed * 1299709 + 13)
    out = []
    for kind in kinds:
        for k, A in enumerate(antichains(n, top)):
            if (k + seed) % every: continue
            if kind == "janet":
                if complete(list(A), 60) is None: continue
            elif order_complete(kind, list(A), 60) is None: continue
            A = list(A); rnd.shuffle(A)
            p = ["begin %d compl %s %d" % (k, kind, n)]
            for g in A: p.append("push " + s(g))
            p += ["build", "findbox %d" % (box or top + 1)] + (["hp"] if kind == "janet" else [])
            out.append(p + ["end"])
    return out

def widen(progs, seed):
    """the same programs in many variables: the others never show up"""
    import sysgen
    rnd = random.Random(seed * 7919 + 31)
    out = []
    for p in progs:
        h = p[0].split()
        k = {"gb": 3, "janet": 3, "compl": 4}[h[2]]
        n = int(h[k])
        at = sysgen.places(rnd, n); N, at = at[0], at[1:]
        h[k] = str(N)
        def emb(e):
            r = ["0"] * N
            for v, d in zip(at, e): r[v] = d
            return r
        q = [" ".join(h)]
        for l in p[1:]:
            w = l.split()
            if w[0] == "hp": continue
            if w[0] == "findbox":
                box = list(itertools.product(range(int(w[1]) + 1), repeat=n)) if (int(w[1]) + 1) ** n < 5000 else []
                q += ["find " + " ".join(emb(map(str, e))) for e in rnd.sample(box, min(40, len(box)))]
                continue
            if w[0] == "prol": w[2] = str(at[int(w[2])])
            elif w[0] == "ins" and h[2] == "janet": w[2:] = emb(w[2:])
            elif w[0] in ("ins", "find", "push"): w[1:] = emb(w[1:])
            q.append(" ".join(w))
        out.append(q)
    return out
