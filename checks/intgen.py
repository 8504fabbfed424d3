"""Programs over registers of big integers."""
import random
from math import gcd

EDGE = sorted({s * v for v in [0, 1, 2, 3, 9, 10, 255, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**127, 2**128 - 1, 2**128, 2**192 - 1, 10**19, 10**20, 3**41, 3**100] for s in (1, -1)})

def text(v, form):
    a = abs(v)
    s = {"d": str(a), "x": hex(a), "o": "0" + oct(a)[2:], "b": bin(a)}[form]
    if form == "o" and a == 0: s = "0"
    return ("-" if v < 0 else "") + s

def value(rnd):
    m = rnd.randrange(8)
    if m < 2: return rnd.choice(EDGE)
    if m == 2: return rnd.randrange(-20, 21)
    if m == 3: return rnd.randrange(-2**64, 2**64)
    if m == 4: return rnd.choice([1, -1]) * 2 ** rnd.randrange(300)
    if m == 5: return rnd.choice([1, -1]) * (2 ** rnd.randrange(1, 300) - 1)
    if m == 6: return rnd.choice([1, -1]) * rnd.randrange(1, 100) * 2 ** (64 * rnd.randrange(5))
    return rnd.choice([1, -1]) * rnd.getrandbits(rnd.choice([10, 64, 65, 128, 200, 500, 800]))

def program(rnd, tid, nr, steps, limit):
    R = [None] * nr
    out = ["begin %d int %d" % (tid, nr)]
    def put(k, v, forms="ddxob"):
        out.append("str %d %d %s" % (k, rnd.randrange(2), text(v, rnd.choice(forms)))); R[k] = v
    for k in range(nr): put(k, value(rnd))
    for _ in range(steps):
        k, a, b = rnd.randrange(nr), rnd.randrange(nr), rnd.randrange(nr)
        op = rnd.choices(["str", "si", "ui", "new", "copy", "assign", "movec", "movea", "swap", "neg", "2", "3", "mkdiv", "mkgcd", "q", "divis", "get", "free"],
                         [6, 3, 2, 1, 4, 5, 2, 2, 3, 3, 16, 16, 6, 4, 6, 4, 6, 1])[0]
        if R[k] is None: put(k, value(rnd)); continue
        if op == "str": put(k, value(rnd))
        elif op == "si": v = rnd.choice([0, 1, -1, 2**63 - 1, -2**63, rnd.randrange(-2**63, 2**63), rnd.randrange(-9, 9)]); R[k] = v; out.append("si %d %d" % (k, v))
        elif op == "ui": v = rnd.choice([0, 1, 2**64 - 1, 2**63, rnd.randrange(2**64)]); R[k] = v; out.append("ui %d %d" % (k, v))
        elif op == "new": R[k] = 0; out.append("new %d %d" % (k, rnd.randrange(2)))
        elif op == "free": R[k] = None; out.append("free %d" % k)
        elif op == "neg": R[k] = -R[k]; out.append("neg %d" % k)
        elif op == "q": out.append("q %d" % k)
        elif op == "get": out.append("get %d %d" % (k, rnd.choice([2, 3, 8, 10, 16, 32, 36, 37, 61, 62, rnd.randrange(2, 63)])))
        elif R[a] is None: continue
        elif op == "divis": out.append("divis %d %d" % (k, a))
        elif op == "assign": R[k] = R[a]; out.append("assign %d %d" % (k, a))
        elif op == "copy":
            R[k] = R[a]; out.append("copy %d %d %d" % (k, a, rnd.randrange(2)))
        elif op in ("movec", "movea"):
            if a != k: R[k], R[a] = R[a], None; out.append("%s %d %d" % (op, k, a))
        elif op == "swap":
            if a != k: R[k], R[a] = R[a], R[k]; out.append("swap %d %d" % (k, a))
        elif op == "2":
            f = rnd.choice(["add2", "sub2", "mul2", "div2", "gcd2"]); x, y = R[k], R[a]
            v = {"add2": x + y, "sub2": x - y, "mul2": x * y}.get(f)
            if f == "div2": 
                if y == 0 or x % y: continue
                v = x // y
            if f == "gcd2":
                if y == 0 or x == 0: continue
                v = gcd(x, y)
            if v.bit_length() > limit: continue
            R[k] = v; out.append("%s %d %d" % (f, k, a))
        elif op == "3":
            if R[b] is None or k == a or k == b: continue
            f = rnd.choice(["add3", "sub3", "mul3", "div3", "gcd3"]); x, y = R[a], R[b]
            v = {"add3": x + y, "sub3": x - y, "mul3": x * y}.get(f)
            if f == "div3":
                if y == 0 or x % y: continue
                v = x // y
            if f == "gcd3":
                if y == 0 or x == 0: continue
                v = gcd(x, y)
            if v.bit_length() > limit: continue
            R[k] = v; out.append("%s %d %d %d" % (f, k, a, b))
        elif op == "mkdiv":                      # an exact quotient and its divisibility
            if a == k or R[a] == 0: continue
            v = value(rnd) * R[a]
            if v.bit_length() > limit: continue
            put(k, v); out.append("divis %d %d" % (k, a))
            if rnd.random() < .3 and v: out.append("neg %d" % k); v = -v
            R[k] = v // R[a]; out.append("div2 %d %d" % (k, a))
        elif op == "mkgcd":
            if a == k: continue
            g, x, y = value(rnd), value(rnd), value(rnd)
            if not (g and x and y) or max(g * x, g * y, key=abs).bit_length() > limit: continue
            put(k, g * x); put(a, g * y); R[k] = gcd(g * x, g * y); out.append("gcd2 %d %d" % (k, a))
    return out + ["end"]

def pairs():
    """every operation on every pair of boundary values"""
    progs = []
    for x in EDGE:
        out = ["begin 0 int 4", "new 3 0"]
        for y in EDGE:
            out += ["str 0 0 %d" % x, "str 1 1 %d" % y, "add3 3 0 1", "sub3 3 0 1", "mul3 3 0 1"]
            if y and x % y == 0: out += ["div3 3 0 1"]
            if y and x: out += ["gcd3 3 0 1"]
            out += ["divis 0 1"]
            for f in ("add2", "sub2", "mul2"): out += ["copy 2 0 0", f + " 2 1"]
            if y and x % y == 0: out += ["copy 2 0 1", "div2 2 1"]
            if y and x: out += ["copy 2 0 1", "gcd2 2 1"]
        out += ["q 0"] + ["get 0 %d" % b for b in range(2, 63)] + ["end"]
        progs.append(out)
    return progs

def big(seed, n):
    """operands of thousands of digits and printing buffers"""
    rnd = random.Random(seed * 13 + 7); res = []
    for t in range(n):
        x, y = rnd.getrandbits(rnd.choice([1200, 2000])) | 1, rnd.getrandbits(rnd.choice([200, 1100])) | 1
        res.append(["begin %d int 3" % t, "str 0 0 %d" % x, "str 1 0 0x%x" % y, "new 2 1", "mul3 2 0 1", "div2 2 1", "sub2 2 0", "add2 2 1", "copy 2 0 0", "mul2 2 2", "get 2 16", "sub3 2 0 1", "get 2 62", "end"])
    return res

def echoes(seed):
    """texts longer than any printing buffer"""
    return [["begin %d int 1" % t, "new 0 0", "echo 0 %d %d %d" % (n, seed + t, b), "get 0 10" if n < 200 else "echo 0 30 %d 10" % seed, "echo 0 %d %d %d" % (n // 2, seed, b), "end"]
            for t, (n, b) in enumerate([(100, 10), (65000, 10), (65600, 10), (70000, 16), (131000, 10), (20000, 2)])]

def programs(seed, n, steps):
    rnd = random.Random(seed * 13 + 1)
    return [program(rnd, t, rnd.choice([2, 3, 4, 5]), rnd.randrange(steps // 3, steps), rnd.choice([200, 1500, 1500])) for t in range(n)]
