"""Histories of garbage-collected values."""
import random

def hexn(rnd, big):
    c = rnd.getrandbits(rnd.choice([1, 4, 30, 64, 65, 128, 300, 1500] if big else [1, 3, 8, 64, 70])) + rnd.choice([0, 0, 1])
    return ("-" if rnd.random() < .4 else "") + hex(c)

def mut(rnd, kind, n, big):
    e = lambda: " ".join(str(rnd.choice([0, 0, 1, 1, 2, 3])) for _ in range(n))
    if kind == "int":
        return rnd.choice([lambda: "set " + hexn(rnd, big), lambda: "add", lambda: "add", lambda: "sub", lambda: "mult", lambda: "mult", lambda: "div",
                           lambda: "neg", lambda: "si %d" % rnd.randrange(-9, 9)])()
    if kind == "mon":
        return rnd.choice([lambda: "set %d %s" % (rnd.choice([-1, -1, 0, 2]), e()), lambda: "mult", lambda: "mult", lambda: "div"])()
    if kind == "poly":
        def poly():
            k = rnd.choice([0, 1, 2, 4, 7, 12])
            return "set %d %s" % (k, " ".join("%s -1 %s" % (hexn(rnd, big), e()) for _ in range(k)))
        return rnd.choice([poly, poly, lambda: "add", lambda: "sub", lambda: "add", lambda: "sub", lambda: "mult", lambda: "mult", lambda: "hex " + hexn(rnd, False), lambda: "hex 0x0",
                           lambda: "addhex " + hexn(rnd, False), lambda: "subhex " + hexn(rnd, False), lambda: "neg", lambda: "pp", lambda: "pow %d" % rnd.randrange(0, 4),
                           lambda: "red", lambda: "red", lambda: "redmaybe"])()
    if kind == "list":
        return rnd.choice([lambda: "push %d" % rnd.randrange(99), lambda: "push %d" % rnd.randrange(99), lambda: "pop", lambda: "clear" if rnd.random() < .1 else "pop",
                           lambda: "ins %d %d" % (rnd.randrange(30), rnd.randrange(99)), lambda: "ins %d %d" % (rnd.randrange(30), rnd.randrange(99)), lambda: "del %d" % rnd.randrange(30)])()
    if kind == "tree":
        m = rnd.choice([12, 60])
        return rnd.choice([lambda: "ins %d" % rnd.randrange(m), lambda: "ins %d" % rnd.randrange(m), lambda: "del %d" % rnd.randrange(m), lambda: "clear" if rnd.random() < .1 else "ins %d" % rnd.randrange(m)])()
    return "ins " + " ".join(str(rnd.choice([0, 0, 1, 2, 3, 5])) for _ in range(n))

KINDS = ["int", "mon", "poly", "poly", "list", "tree", "janet"]
def program(rnd, tid, kind, steps):
    big, nr = rnd.random() < .4, rnd.randrange(2, 5)
    n = rnd.choice([1, 2, 3, 4, 12]) if kind != "mon" else rnd.choice([1, 3, 20, 300])
    out = ["begin %d gc %d %s %d %d" % (tid, nr, kind, rnd.choice([0x12, 0x11, 0x22]), n)]
    out += ["new %d" % d for d in range(nr)]
    calm = kind in ("list", "tree", "janet") and rnd.random() < .5
    for _ in range(steps):
        d, a, x = rnd.randrange(nr), rnd.randrange(nr), rnd.random()
        if x < (.85 if calm else .6):
            if calm: d = 0
            out.append("mut %d %d %s" % (d, a, mut(rnd, kind, n, big)))
        elif x < .9 and calm: out.append("collect %d" % d)
        elif x < .68: out.append("collect %d" % d)
        elif x < .8: out.append("copy %d %d" % (d, a) if d != a else "collect %d" % d)
        elif x < .88:
            if d != a: out.append(("assign %d %d" if kind != "janet" else "copy %d %d") % (d, a))
        elif x < .95:
            if d != a: out.append("swap %d %d" % (d, a))
        else: out += ["drop %d" % d, "new %d" % d]
    if kind == "poly" and rnd.random() < .3: out.append("mut 0 1 set 0")
    return out + ["end"]

def programs(seed, count, steps=40):
    rnd = random.Random(seed * 104729 + 5)
    return [program(rnd, k, KINDS[k % len(KINDS)], rnd.choice([10, steps, steps, 3 * steps])) for k in range(count)]
