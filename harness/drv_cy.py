"""Conformance driver for the Python binding (module ginv built by lib/build_cy.sh):
names bound to polynomials and monomials, expressions over them, views of
expressions, and bases; drv_cy.py DIR program log, DIR holds ginv.so."""
import gc, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, sys.argv[1])
import pyvt
from pyvt import emit, big, Harness
import ginv

ORD = {0x10: "TOP", 0x20: "POT"}
BASE = {1: "lex", 2: "deglex", 4: "alex"}

def pm(m): return [m.pos()] + list(m)
def pp(p): return [[pm(m), big(int(str(c)))] for m, c in p]
def mono(n, pos, e):
    m = ginv.monom.zero(n, -1)
    for v, x in enumerate(e):
        if x: m = m * ginv.monom.variable(v, n, -1) ** x
    return m.setPos(pos) if pos != -1 else m
def num(s): return int(s, 0)

class Polys:
    def __init__(self, order, n):
        self.o, self.n = order, n
    def mono(self, pos, e):
        return ginv.poly_int.to_monom(ORD[self.o & 0xf0], BASE[self.o & 0x0f], mono(self.n, pos, e))
    def zero(self):
        x = self.mono(-1, [0] * self.n)
        return x - x
    def load(self, w):
        """count, then coefficient pos e1..en per term"""
        k, n = int(w[0]), self.n
        r, ts, w = self.zero(), [], w[1:]
        for i in range(k):
            c, pos, e = num(w[0]), int(w[1]), [int(x) for x in w[2:2 + n]]
            w = w[2 + n:]
            if c:
                r = r + (self.mono(pos, e) * c if i % 2 else c * self.mono(pos, e))
            ts.append([[pos] + e, big(c)])
        return r, ts

def text_monom(s):
    """'[1 0]' or '[2:1 0]' -> [pos, e...]"""
    try:
        assert s[0] == "[" and s[-1] == "]"
        s = s[1:-1]
        pos, e = s.split(":") if ":" in s else ("-1", s)
        return [int(x) for x in pos.split()] + [int(x) for x in e.split()]
    except Exception:
        return s

def run_poly(t):
    w = t[0]
    nr, order, n = int(w[3]), int(w[4], 0), int(w[5])
    m0 = ginv.allocator.currMemory()
    Z = Polys(order, n)
    P = [Z.zero() for _ in range(nr)]
    V = []                                    # [owner, list of views]
    emit({"op": "begin", "id": int(w[1]), "nr": nr, "n": n, "order": order})
    def bind(d, p):
        P[d] = p
        for v in V:
            if v[0] == d: v[0] = -1
    def inplace(d): V[:] = [v for v in V if v[0] != d]
    def take(own, p): V.append([own, list(p)])
    def shown(): return [[[pm(m), big(int(str(c)))] for m, c in v[1]] for v in V]
    def churn():                              # what a collected object left behind is used again
        gc.collect()
        x = Z.mono(-1, [1] * n) + 12345678901234567890
        y = [x * x for _ in range(3)]
        return len(y)
    def canmul(f, g): return not (any(m.pos() != -1 for m, _ in f) and any(m.pos() != -1 for m, _ in g))
    for w in t[1:]:
        op, a = w[0], w[1:]
        o = {"op": op}
        if op == "set":
            d = int(a[0]); r, ts = Z.load(a[1:]); o.update({"d": d, "in": ts}); bind(d, r); del r
        elif op == "mono":
            d = int(a[0]); e = [int(x) for x in a[2:]]; o.update(d=d, pos=int(a[1]), e=e); bind(d, Z.mono(int(a[1]), e))
        elif op in ("opadd", "opsub", "opmult"):
            d, i, j = int(a[0]), int(a[1]), int(a[2]); o.update(d=d, a=i, b=j)
            if op == "opmult" and (not canmul(P[i], P[j]) or len(P[i]) * len(P[j]) > (60 if len(P[i]) + len(P[j]) < 60 else 1500)): emit({"op": "skip"}); continue
            bind(d, P[i] + P[j] if op == "opadd" else P[i] - P[j] if op == "opsub" else P[i] * P[j])
        elif op == "opneg":
            d, i = int(a[0]), int(a[1]); o.update(d=d, a=i); bind(d, -P[i])
        elif op in ("addc", "raddc", "subc", "rsubc", "multc", "rmultc"):
            d, c = int(a[0]), num(a[1]); o.update(d=d, c=big(c))
            bind(d, {"addc": lambda: P[d] + c, "raddc": lambda: c + P[d], "subc": lambda: P[d] - c, "rsubc": lambda: c - P[d],
                     "multc": lambda: P[d] * c, "rmultc": lambda: c * P[d]}[op]())
        elif op == "pow":
            d, x = int(a[0]), int(a[1]); o.update(d=d, x=x)
            if x >= 2 and (not canmul(P[d], P[d]) or len(P[d]) ** x > 80): emit({"op": "skip"}); continue
            bind(d, P[d] ** x)
        elif op == "red":
            d, i = int(a[0]), int(a[1]); o.update(d=d, a=i)
            if d == i or not P[d] or not P[i] or not P[d].lm().divisiable(P[i].lm()): emit({"op": "skip"}); continue
            r = P[d].reduction(P[i])
            if r is not P[d]: raise Harness("reduction returns another object")
            del r
            inplace(d)
        elif op == "pp":
            d = int(a[0]); o.update(d=d)
            if P[d].isPp() or P[d].isZero(): emit({"op": "skip"}); continue
            P[d].pp(); inplace(d)
        elif op == "take": i = int(a[0]); o.update(a=i); take(i, P[i])
        elif op == "takesum": i, j = int(a[0]), int(a[1]); o.update(a=i, b=j); take(-1, P[i] + P[j])
        elif op == "takeprod":
            i, j = int(a[0]), int(a[1]); o.update(a=i, b=j)
            if not canmul(P[i], P[j]) or len(P[i]) * len(P[j]) > (60 if len(P[i]) + len(P[j]) < 60 else 1500): emit({"op": "skip"}); continue
            take(-1, P[i] * P[j])
        elif op == "drop":
            if not V: emit({"op": "skip"}); continue
            V.pop(0)
        elif op == "q":
            i = int(a[0]); p = P[i]; c = p.order()
            o.update(a=i, len=len(p), iszero=p.isZero(), bool=bool(p), ispp=p.isPp() if p else True, size=p.size(), top=c[0] == "TOP", base=c[1], comparable=p.comparable(P[0]))
            if p:
                lc = p.lc()
                h = repr(lc)
                o.update(lm=pm(p.lm()), lc=big(int(str(lc))), deg=p.degree(), hex=big(int(h, 16)) if "0x" in h else h, sgn=lc.sgn(), one=lc.isOne(), absone=lc.isAbsOne(), lcbool=bool(lc), lczero=lc.isZero())
                del lc
            del p
            emit(o); continue
        elif op == "end":
            P.clear(); V.clear(); gc.collect()
            emit({"op": "end", "curr": ginv.allocator.currMemory() - m0}); continue
        else: raise Harness(op)
        if op in ("take", "takesum", "takeprod") or V: churn()
        o["st"] = [pp(p) for p in P]
        o["views"] = shown()
        emit(o)

def run_monom(t):
    w = t[0]
    nr, n = int(w[3]), int(w[4])
    m0 = ginv.allocator.currMemory()
    M = [None] * nr
    emit({"op": "begin", "id": int(w[1]), "nr": nr, "n": n})
    for w in t[1:]:
        op, a = w[0], w[1:]
        x = [int(v) for v in a]
        o = {"op": op}
        if op == "zero": o.update(d=x[0], pos=x[1]); M[x[0]] = ginv.monom.zero(n, x[1])
        elif op == "var": o.update(d=x[0], v=x[1], pos=x[2]); M[x[0]] = ginv.monom.variable(x[1], n, x[2])
        elif op == "set": o.update(d=x[0], pos=x[1], e=x[2:]); M[x[0]] = mono(n, x[1], x[2:])
        elif op == "prod": o.update(d=x[0], a=x[1], b=x[2]); M[x[0]] = M[x[1]] * M[x[2]]
        elif op == "power": o.update(d=x[0], a=x[1], x=x[2]); M[x[0]] = M[x[1]] ** x[2]
        elif op == "cdiv": o.update(d=x[0], a=x[1], b=x[2]); M[x[0]] = M[x[1]] / M[x[2]]
        elif op == "setpos":
            o.update(d=x[0], pos=x[1]); M[x[0]].setPos(x[1])
        elif op == "cperm":
            p = ginv.randpermutation(n); p.next()
            o.update(d=x[0], a=x[1], perm=[p[k] for k in range(len(p))]); M[x[0]] = M[x[1]].permutation(p); del p
        elif op == "crand":
            ginv.monom.rand_init(n, x[1], x[2]); M[x[0]] = ginv.monom.next(); o.update(d=x[0], d1=x[1], d2=x[2], got=pm(M[x[0]]))
        elif op == "free": o.update(d=x[0]); M[x[0]] = None
        elif op == "cq":
            i, j = M[x[0]], M[x[1]]
            o.update(a=x[0], b=x[1], div=i.divisiable(j), lex=i.lex(j), deglex=i.deglex(j), alex=i.alex(j), bool=bool(i), len=len(i), at=[i[k] for k in range(n)],
                     str=text_monom(str(i)), repr=text_repr(repr(i)))
            del i, j
        elif op == "cend":
            M.clear(); gc.collect(); emit({"op": "cend", "curr": ginv.allocator.currMemory() - m0}); continue
        else: raise Harness(op)
        o["st"] = [[] if m is None else [m.pos(), m.degree()] + list(m) for m in M]
        emit(o)

def text_repr(s):
    try:
        assert s[0] == "[" and s[-1] == "]"
        h, e = s[1:-1].split(":")
        return [int(v) for v in h.split()] + [int(v) for v in e.split()]
    except Exception:
        return s

def run_sys(t):
    w = t[0]
    order, n = int(w[3], 0), int(w[4])
    Z = Polys(order, n)
    J = ginv.janet_poly_int()
    emit({"op": "begin", "id": int(w[1]), "n": n, "order": order})
    def frac(s):
        s = s.split("/")
        return [big(int(s[0])), big(int(s[1]) if len(s) > 1 else 1)]
    for w in t[1:]:
        op, a = w[0], w[1:]
        o = {"op": op}
        if op == "push":
            p, _ = Z.load(a); cmp = J.comparable(p); before = pp(p)
            r = J.push(p)
            if r is not J: raise Harness("push returns another object")
            del r
            o.update(p=before, cmp=cmp and pp(p) == before); del p
        elif op == "build":
            J.build()
            # the elements are read after the wrapping objects are gone
            polys = [x.poly() for x in J]; anc = [x.ansector() for x in J]; lms = [x.lm() for x in J]
            gc.collect()
            nms = [[1 if x.NM(v) else 0 for v in range(n)] for x in J]
            T = [[pm(l), k, pm(c), pp(p)] for l, k, c, p in zip(lms, nms, anc, polys)]
            trees = True
            one = J.isOne()
            if not one and len(J) > 0:
                sizes = [J.janet(p).size() for p in range(-1, J.maxPos() + 1)]
                trees = sizes == [sum(1 for e in T if e[0][0] == p) for p in range(-1, J.maxPos() + 1)]
                for e, l in zip(T, lms):
                    f = J.find(l)
                    if f is None or pm(f.lm()) != e[0] or pp(f.poly()) != e[3]: trees = False
                    # the leading term of the element, and the printed marks of the variables
                    if not (e[3] and e[3][0][0] == e[0]): trees = False
                marks = [str(x).rsplit("[", 1)[1][:-1] for x in J]
                if marks != ["".join("*" if k else " " for k in e[1]) for e in T]: trees = False
            if bool(J) != (len(J) > 0): trees = False
            o.update(alg=0, size=len(J), one=one, maxpos=J.maxPos(), T=T, trees=trees, mk=[int(x.isGB()) for x in J])
            del polys, anc, lms
        elif op == "nf":
            p, _ = Z.load(a); o["p"] = pp(p)
            r = J.nf(p)
            o["r"] = pp(r)
        elif op == "find":
            m = [int(x) for x in a]; f = J.find(mono(n, m[0], m[1:]))
            o.update(m=m, found=[] if f is None else pm(f.lm()))
        elif op == "hp":
            has = (not J.isOne()) and len(J) > 0
            o.update(has=has, hp=[frac(s) for s in J.HilbertPoly()] if has else [],
                     hps=[[p, [frac(s) for s in J.janet(p).HilbertPoly()]] for p in range(-1, J.maxPos() + 1) if J.janet(p).size()] if has else [])
        elif op == "end": pass
        else: raise Harness(op)
        emit(o)

def run(t):
    {"cypoly": run_poly, "cymonom": run_monom, "sys": run_sys}[t[0][2]](t)

if __name__ == "__main__":
    pyvt.main(run)
