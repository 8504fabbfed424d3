"""Programs over arenas."""
import random

def translate(act, frm):
    op = act[0]
    z = {"get": "dvvv", "new": "d", "drop": "d", "swap": "dd", "copy": "dd", "free": "d", "write": "dv"}[op]
    return [op + " " + " ".join(str(x - 1 if k == "d" else x) for k, x in zip(z, act[1:]))]

SIZES = [1, 7, 8, 15, 16, 17, 31, 32, 100, 255, 1000, 2063, 2064, 4000, 4095, 4096, 4100, 4111, 4112, 4113, 4127, 4128, 4129, 5000, 8239, 8240, 8241, 8256, 12384, 20000, 65536, 300000]

def program(rnd, tid, na, steps):
    live = [True] * na; blk = []
    out = ["begin %d arena %d" % (tid, na)] + ["new %d" % d for d in range(na)]
    small = rnd.random() < .5
    while len(out) < steps:
        d, a = rnd.randrange(na), rnd.randrange(na)
        op = rnd.choices(["get", "free", "write", "swap", "drop", "limit", "copy"], [20, 8, 4, 2, .7, 3, .5])[0]
        held = [k for k, b in enumerate(blk) if b is not None]
        if not live[d]:
            live[d] = True
            if live[a] and a != d and rnd.random() < .5: out.append("copy %d %d" % (d, a))
            else: out.append("new %d" % d)
            continue
        if op == "get" and len(blk) < 60:
            kind = rnd.choice([0, 0, 0, 1, 2, 3, 4]); n = rnd.choice(SIZES[:12]) if small else rnd.choice(SIZES)
            if kind == 0 and rnd.random() < .4: n = rnd.randrange(1, 600)
            if kind in (2, 3, 4): n = rnd.choice([1, 2, 3, 7, 20, 171, 172, 500])
            out.append("get %d %d %d %d" % (d, kind, n, rnd.randrange(1, 250))); blk.append(d)
        elif op == "free" and held: k = rnd.choice(held); blk[k] = None; out.append("free %d" % k)
        elif op == "write" and held: out.append("write %d %d" % (rnd.choice(held), rnd.randrange(1, 250)))
        elif op == "swap" and d != a and live[a]: blk = [a if b == d else d if b == a else b for b in blk]; out.append("swap %d %d" % (d, a))
        elif op == "drop": live[d] = False; blk = [None if b == d else b for b in blk]; out.append("drop %d" % d)
        elif op == "limit": out.append("limit %d %d %d" % (d, rnd.choice([0, 1, 4127, 4128, 4129, 8255, 8256, 8257, 20000, 10**6]), rnd.choice(SIZES)))
        elif op == "copy" and not live[a]: pass
        if len(blk) >= 60 and not held: break
    return out + ["end"]

def programs(seed, n, steps):
    rnd = random.Random(seed * 12 + 1)
    return [program(rnd, t, rnd.choice([1, 2, 3]), rnd.randrange(steps // 3, steps)) for t in range(n)]
