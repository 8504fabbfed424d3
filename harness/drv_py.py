"""Conformance driver for the pure Python package (pyginv): monomials,
polynomials, Janet trees and completions; drv_py.py DIR program log.

The package orders components by their place in the list of functions, the
first is the greatest; programs and logs count them the other way round, so
that the greater number is the greater component (-1 is the ring)."""
import os, sys, re, itertools, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, sys.argv[1])
import pyvt
from pyvt import emit, big, Harness
import sympy
from monomial import Monom
from polynomial import Poly, PolyDiff, PolySchem
import janet, ginv

CMP = {0x11: Monom.TOPlex, 0x12: Monom.TOPdeglex, 0x21: Monom.POTlex, 0x22: Monom.POTdeglex}
def num(s): return int(s, 0)

class Names:
    def __init__(self, order, n, K, init, wide=()):
        # a system of few variables in a ring of many: where its variables are, the others never show up
        self.at, self.n, self.K = [int(x) for x in wide[1:]], n, K
        if wide: n = int(wide[0])
        self.all = n
        self.var = ["x%d" % v for v in range(n)]
        self.fun = ["f%d" % p for p in range(K)]
        r = init(self.var, self.fun) if K else init(self.var)
        if order in CMP: Monom.cmp = CMP[order]
        self.first = r
    def c(self, p): return -1 if p == -1 else self.K - 1 - p          # both ways
    def narrow(self, e):
        if not self.at: return [int(x) for x in e]
        return [int(e[v]) for v in self.at] + ([-1] if len(e) != self.all or any(e[v] for v in range(len(e)) if v not in self.at) else [])
    def mono(self, c, e):
        if self.at:
            r = [0] * self.all
            for v, d in zip(self.at, e): r[v] = d
            e = r
        return Monom(tuple(e)) if c == -1 else Monom(tuple(e), pos=self.c(c))
    def pm(self, m): return [self.c(m.position())] + self.narrow(m)
    def coef(self, k):
        k = sympy.sympify(k)
        if not k.is_Rational: raise ValueError("coefficient %s" % k)
        return [big(int(k.p)), big(int(k.q))]
    def pp(self, p): return [[self.pm(m)] + self.coef(k) for m, k in p]
    def zz(self, p):                       # integer coefficients only
        r = self.pp(p)
        if any(d != [1, 1] for _, _, d in r): raise ValueError("fraction")
        return [[m, c] for m, c, _ in r]
    def load(self, w, cls=Poly):
        """count, then coefficient pos e1..en per term"""
        k, w = int(w[0]), w[1:]
        r, ts = cls(), []
        for _ in range(k):
            c, pos, e = w[0], int(w[1]), [int(x) for x in w[2:2 + self.n]]
            w = w[2 + self.n:]
            p, q = c.split("/") if "/" in c else (c, "1")
            f = sympy.Rational(num(p), num(q))
            if f: r = r + cls(self.mono(pos, e)) * f
            ts.append([[pos] + e] + self.coef(f))
        return r, ts

# ------------------------------------------------------------- completions
def run_sys(t):
    w = t[0]
    order, n, K, inv, alg = int(w[3], 0), int(w[4]), int(w[5]), w[6], w[7]
    cls = {"diff": PolyDiff, "schem": PolySchem}.get((w + [""])[8], Poly)
    N = Names(order, n, K, cls.init, w[9:])
    tree = {"janet": janet.Janet, "cache": janet.JanetCache}[inv]
    J = janet.Forest(tree) if K else tree()
    emit({"op": "begin", "id": int(w[1]), "n": n, "order": order, "K": K})
    queue, pos, allg = [], -1, []
    def elements(): return sorted(J, key=lambda x: x)
    def dump():
        return [[N.pm(x.lm), N.narrow([1 if f else 0 for f in x.nonmult]), N.pm(x.ansector), N.zz(x.poly)] for x in elements()]
    def isone(T): return K == 0 and len(T) == 1 and not any(T[0][0][1:])
    for w in t[1:]:
        op, a = w[0], w[1:]
        o = {"op": op}
        if op == "push":
            p, _ = N.load(a, cls)
            before = N.zz(p)
            if p: queue.append(p)
            pos = max([pos] + [m[0] for m, _ in before])
            o.update(p=before, cmp=True)
        elif op == "build":
            if queue:
                if alg == "min": ginv.ginvMin(queue, J)
                else: ginv.ginvBlockLow(queue, J)
            queue = []
            T = dump()
            one = isone(T)
            trees = J.count() == len(T) and all(x.lm.cmp(x.poly.lm()) == 0 and x.multi() == sum(1 for f in x.nonmult if not f) for x in J)
            for x in elements():
                y = J.findWrap(x.lm)
                if y is not x or J.find(x.lm) is not x.poly: trees = False
            if J.is_forest() != (K > 0): trees = False
            if one and T[0][3] not in ([[T[0][0], [1, 1]]], [[T[0][0], [-1, 1]]]): trees = False
            gb = [N.pm(x.lm) for x in sorted(J.GB(), key=lambda x: x)]
            o.update(alg=0, size=1 if one else len(T), one=one, maxpos=pos, T=[] if one else T, gb=[] if one else gb, trees=trees)
        elif op == "nf":
            p, _ = N.load(a, cls); o["p"] = N.zz(p)
            p.NFhead(J)
            if p: p.NFtail(J); p.pp()
            o["r"] = N.zz(p)
        elif op == "nfq":
            p, _ = N.load(a, cls); o["p"] = N.zz(p)
            if p.NF(J) is not p: raise Harness("NF returns another object")
            d = 1
            for _, k in p: d = sympy.ilcm(d, sympy.sympify(k).q)
            o.update(r=N.zz([[m, k * d] for m, k in p]), den=big(int(d)))
        elif op == "find":
            m = [int(x) for x in a]
            q = N.mono(m[0], m[1:])
            f = J.findWrap(q) if (m[0] != -1) == (K > 0) else None
            g = J.find(q) if (m[0] != -1) == (K > 0) else None
            o.update(m=m, found=[] if f is None else N.pm(f.lm), kind=inv, g=[] if g is None else N.zz(g))
        elif op == "hp":
            T = dump()
            has = not isone(T) and bool(T)
            o.update(has=has, hp=hilbert(J.HP(), n) if has else [])
        elif op == "end": pass
        else: raise Harness(op)
        emit(o)

# ------------------------------ completions with functions for coefficients
def run_dsys(t):
    """differential systems whose coefficients are polynomials in the independent
    variables and parameters, difference systems with parameters"""
    w = t[0]
    cls, order, n, K, inv, alg, x = {"diff": PolyDiff, "schem": PolySchem, "poly": Poly}[w[3]], int(w[4], 0), int(w[5]), int(w[6]), w[7], w[8], int(w[9])
    N = Names(order, n, K, cls.init)
    diff = cls is PolyDiff
    par = (list(N.first[0]) if diff else []) + [sympy.Symbol(y, real=True) for y in PARNAMES[:x]]
    r = len(par)
    tree = {"janet": janet.Janet, "cache": janet.JanetCache}[inv]
    J = janet.Forest(tree) if K else tree()
    emit({"op": "begin", "id": int(w[1]), "n": n, "r": r, "order": order, "K": K, "diff": diff})
    queue = []
    def coef(k):
        k = sympy.sympify(k)
        if k.is_Rational: return [[[0] * r] + N.coef(k)]
        if not par: raise ValueError("coefficient %s" % k)
        P = sympy.Poly(k, *par, domain="QQ")
        return [[list(map(int, e))] + N.coef(c) for e, c in P.terms()] if P else []
    def terms(p): return [[N.pm(m), coef(k)] for m, k in p]
    def load(w):
        k, w, g = int(w[0]), w[1:], {}
        for _ in range(k):
            c, m, e = num(w[0]), tuple(map(int, w[1:2 + n])), list(map(int, w[2 + n:2 + n + r]))
            w = w[2 + n + r:]
            g[m] = g.get(m, 0) + c * sympy.prod([s ** d for s, d in zip(par, e)])
        p = cls()
        for m, c in g.items():
            if c != 0: p = p + cls(N.mono(m[0], m[1:])) * c
        return p
    def elements(): return sorted(J, key=lambda x: x)
    for w in t[1:]:
        op, a = w[0], w[1:]
        o = {"op": op}
        if op == "push":
            p = load(a); o["p"] = terms(p)
            if p: queue.append(p)
        elif op == "build":
            (ginv.ginvMin if alg == "min" else ginv.ginvBlockLow)(queue, J)
            queue = []
            E = elements()
            trees = J.count() == len(E) and all(x.lm.cmp(x.poly.lm()) == 0 and J.findWrap(x.lm) is x and J.find(x.lm) is x.poly for x in E)
            o.update(T=[[N.pm(x.lm), [1 if f else 0 for f in x.nonmult], terms(x.poly)] for x in E], gb=[N.pm(x.lm) for x in sorted(J.GB(), key=lambda x: x)],
                     trees=trees and all(type(x.poly) is cls for x in E))
        elif op in ("nf", "nfq"):
            p = load(a); o["p"] = terms(p)
            den = sympy.Integer(1)
            if op == "nf":
                p.NFhead(J)
                if p: p.NFtail(J); p.pp()
            else:
                p.NF(J)
                for _, k in p: den = sympy.lcm(den, sympy.fraction(sympy.together(k))[1])
            o.update(r=[[N.pm(m), coef(sympy.cancel(k * den))] for m, k in p], den=coef(den))
        elif op == "find":
            m = [int(x) for x in a]
            f, g = J.findWrap(N.mono(m[0], m[1:])), J.find(N.mono(m[0], m[1:]))
            o.update(m=m, found=[] if f is None else N.pm(f.lm), kind=inv, g=[] if g is None else terms(g))
        elif op == "hp":
            v = int(a[0])
            o.update(verge=v, hp=hilbert(J.HP() if v == -1 else J.HP(v), n) if list(J) else [])
        elif op == "end": pass
        else: raise Harness(op)
        emit(o)

# ---------------------------------------------------------------- monomials
def text_product(N, s, sep, exp):
    """names joined by sep, powers marked by exp -> [component, exponents]"""
    c, e = -1, [0] * N.n
    for f in (s.split(sep) if s else []):
        b, d = f.split(exp) if exp in f else (f, "1")
        b = b.replace("{", "").replace("}", "")
        if b in N.fun: c = N.c(N.fun.index(b)) if c == -1 else "twice"
        else: e[N.var.index(b)] += int(d)
    return [c] + e
def text_args(N, parts):
    c, e, k = N.c(N.fun.index(parts[0])), [0] * N.n, 1
    while k < len(parts):
        v = N.var.index(parts[k])
        if k + 1 < len(parts) and parts[k + 1].isdigit(): e[v] += int(parts[k + 1]); k += 2
        else: e[v] += 1; k += 1
    return [c] + e
def texts(N, m):
    """every printed form, read back"""
    def tr(f):
        try: return f()
        except Exception as x: return "unreadable: %s" % x
    r = {}
    one = m.position() == -1 and m.degree() == 0
    r["str"] = tr(lambda: [-1] + [0] * N.n if str(m) == "1" else text_product(N, str(m).replace("**", "^"), "*", "^"))
    r["latex"] = tr(lambda: [-1] + [0] * N.n if m.latex() == "1" else text_product(N, m.latex(), " ", "^"))
    def rep():
        s = repr(m); assert s[0] == "[" and s[-1] == "]"
        p, e = s[1:-1].split(";") if ";" in s else ("-1", s[1:-1])
        return [N.c(int(p))] + [int(x) for x in e.split()]
    r["repr"] = tr(rep)
    if m.position() != -1 or one:
        unit = [-1] + [0] * N.n
        def args(head, s): assert s.startswith(head + "(") and s[-1] == ")"; return text_args(N, s[len(head) + 1:-1].split(", "))
        r["df"] = tr(lambda: unit if m.df() == "1" else args("df", m.df()))
        r["T"] = tr(lambda: unit if m.T() == "1" else args("T", m.T()))
        def sym():
            s = m.df_sympy()
            if s == "1": return unit
            f, rest = s.split("(", 1); a, rest = rest.split(")", 1)
            assert a.split(", ") == N.var
            if rest: assert rest.startswith(".diff(") and rest[-1] == ")"; rest = rest[6:-1].split(", ")
            return text_args(N, [f] + (rest or []))
        r["sym"] = tr(sym)
        def dl():
            s = m.df_latex()
            if s == "1": return unit
            if "}_{" in s: f, d = s.split("}_{"); f, d = f[1:], [x.strip("{}") for x in d[:-1].split(" ")]
            else: f, d = s[1:-1], []
            return text_args(N, [f] + d)
        r["dl"] = tr(dl)
        def tl():
            s = m.T_latex()
            if s == "1": return unit
            f, d = s.split("}_{"); d = d[:-1].split("\\, ")
            assert len(d) == N.n
            e = []
            for v, x in enumerate(d):
                b, k = x.split(" + ") if " + " in x else (x, "0")
                assert b == "{%s}" % N.var[v]; e.append(int(k))
            return [N.c(N.fun.index(f[1:]))] + e
        r["tl"] = tr(tl)
    return r

def run_monom(t):
    w = t[0]
    nr, order, n, K = int(w[3]), int(w[4], 0), int(w[5]), int(w[6])
    N = Names(order, n, K, Monom.init)
    vs, fs = N.first if K else (N.first, ())
    M = [None] * nr
    emit({"op": "begin", "id": int(w[1]), "nr": nr, "n": n, "order": order,
          "vars": [N.pm(m) for m in vs], "funs": [N.pm(m) for m in fs]})
    for w in t[1:]:
        op, a = w[0], [int(v) for v in w[1:]]
        o = {"op": op}
        if op == "zero": o.update(d=a[0], pos=a[1]); M[a[0]] = Monom() if a[1] == -1 else Monom(pos=N.c(a[1]))
        elif op == "var": o.update(d=a[0], v=a[1], pos=-1); M[a[0]] = Monom(a[1])
        elif op == "set": o.update(d=a[0], pos=a[1], e=a[2:]); M[a[0]] = N.mono(a[1], a[2:])
        elif op == "copy": o.update(d=a[0], a=a[1]); M[a[0]] = M[a[1]].copy()
        elif op == "prol": o.update(d=a[0], v=a[1], a=a[2]); M[a[0]] = M[a[2]].prolong(a[1])
        elif op == "prod": o.update(d=a[0], a=a[1], b=a[2]); M[a[0]] = M[a[1]] * M[a[2]]
        elif op == "power": o.update(d=a[0], a=a[1], x=a[2]); M[a[0]] = M[a[1]] ** a[2]
        elif op == "cdiv": o.update(d=a[0], a=a[1], b=a[2]); M[a[0]] = M[a[1]] / M[a[2]]
        elif op == "lcm": o.update(d=a[0], a=a[1], b=a[2]); M[a[0]] = M[a[1]].lcm(M[a[2]])
        elif op == "gcd": o.update(d=a[0], a=a[1], b=a[2]); M[a[0]] = M[a[1]].gcd(M[a[2]])
        elif op == "free": o.update(d=a[0]); M[a[0]] = None
        elif op == "pq":
            i, j = M[a[0]], M[a[1]]
            o.update(a=a[0], b=a[1], div=i.divisible(j), divt=i.divisibleTrue(j), lex=i.lex(j), deglex=i.deglex(j),
                     tl=i.TOPlex(j), td=i.TOPdeglex(j), pl=i.POTlex(j), pd=i.POTdeglex(j), cmp=i.cmp(j),
                     lt=i < j, le=i <= j, gt=i > j, ge=i >= j, eq=i == j, ne=i != j, hash=hash(i) == hash(j), set=len({i, j}),
                     bool=bool(i), deg=i.degree(), expand=i.expand(), txt=texts(N, i))
            if i.position() == j.position() and any(x < y for x, y in zip(i, j)): o["nonmult"] = i.nonmult(j)
        elif op == "gradus":
            o.update(deg=a[0], pos=a[1], got=[N.pm(m) for m in (Monom.gradus(a[0]) if a[1] == -1 else Monom.gradus(a[0], N.c(a[1])))])
        elif op == "end": pass
        else: raise Harness(op)
        o["st"] = [[] if m is None else [N.c(m.position()), int(m.degree())] + [int(x) for x in m] for m in M]
        emit(o)


# --------------------------------------------------------------- polynomials
PARNAMES = ["ta", "tb", "tc"]
def run_poly(t):
    w = t[0]
    cls = {"pypoly": Poly, "pydiff": PolyDiff, "pyschem": PolySchem}[w[2]]
    diff = cls is PolyDiff
    nr, order, n, K, r = int(w[3]), int(w[4], 0), int(w[5]), int(w[6]), int(w[7])
    N = Names(order, n, K, cls.init)
    par = [sympy.Symbol(x, real=True) for x in PARNAMES[:r - n if diff else r]]
    if diff: par = list(N.first[0]) + par          # the independent variables are coefficients
    R = [cls() for _ in range(nr)]
    emit({"op": "begin", "id": int(w[1]), "nr": nr, "n": n, "r": r, "order": order})
    def coef(k):
        """number or polynomial in the parameters -> [[exponents, p, q]...]"""
        k = sympy.sympify(k)
        if k.is_Rational: return [[[0] * r] + N.coef(k)]
        P = sympy.Poly(k, *par, domain="QQ")
        return [[list(map(int, e))] + N.coef(c) for e, c in P.terms()] if P else []
    def terms(p): return [[N.pm(m), coef(k)] for m, k in p]
    def rat(x):
        p, q = x.split("/") if "/" in x else (x, "1")
        return sympy.Rational(num(p), num(q))
    def number(x):                          # a Python integer or a rational number of sympy
        k = rat(x)
        return (int(k) if k.is_Integer and not x.endswith("/1") else k), {"p": big(int(k.p)), "q": big(int(k.q))}
    def load(w):
        p, ts = cls(), {}
        k, w = int(w[0]), w[1:]
        ins, group = [], {}
        for _ in range(k):
            c, m, e = rat(w[0]), [int(x) for x in w[1:2 + n]], [int(x) for x in w[2 + n:2 + n + r]]
            w = w[2 + n + r:]
            ins.append([m + e] + N.coef(c))
            group[tuple(m)] = group.get(tuple(m), 0) + c * sympy.prod([s ** d for s, d in zip(par, e)])
        for m, c in group.items():
            if c != 0: p = p + cls(N.mono(m[0], m[1:])) * c
        return p, ins
    def operator(s, op):
        """products with df(f, x, 2, ...) or T(...) or f(x, y).diff(...), read back"""
        D = {}
        def mark(c, e): return D.setdefault((c,) + tuple(e), sympy.Symbol("d_%d_%s" % (c, "_".join(map(str, e)))))
        def args(f, *a):
            c, e, k = N.c(N.fun.index(f)), [0] * n, 0
            while k < len(a):
                v = N.var.index(str(a[k])); m = 1
                if k + 1 < len(a) and a[k + 1].is_Integer: k += 1; m = int(a[k])
                e[v] += m; k += 1
            return mark(c, e)
        class Fun:
            def __init__(self, f): self.f = f
            def __call__(self, *a):
                assert [str(x) for x in a] == N.var
                return Applied(self.f)
        class Applied:
            def __init__(self, f): self.f = f
            def diff(self, *a): assert a; return args(self.f, *a)
            def plain(self): return args(self.f)
            def __mul__(self, x): return self.plain() * x
            def __add__(self, x): return self.plain() + x
            __rmul__, __radd__ = __mul__, __add__
        names = {str(x): x for x in par}
        if not diff: names.update({x: sympy.Symbol(x) for x in N.var})
        names.update({f: f if op else Fun(f) for f in N.fun})
        if op: names[op] = args
        txt = re.sub(r"(?<![A-Za-z_0-9])\d+", lambda x: "I(%s)" % x.group(), s)
        e = eval(txt, {"__builtins__": {}, "I": sympy.Integer}, names)
        e = sympy.sympify(e.plain() if isinstance(e, Applied) else e)
        if e == 0: return []
        P = sympy.Poly(e, *D.values(), *par, domain="QQ") if D or par else None
        g = {}
        for x, c in (P.terms() if P else [((), e)]):
            f = list(x[:len(D)])
            if sum(f) > 1: raise ValueError("a product of derivatives")
            m = list(D)[f.index(1)] if 1 in f else (-1,) + (0,) * n
            g.setdefault(tuple(m), []).append([list(map(int, x[len(D):]))] + N.coef(c))
        return [[list(m), c] for m, c in g.items()]
    def text(p):
        """the printed form, read back"""
        if diff: return operator(str(p), "df")
        if cls is PolySchem: return operator(str(p), "T") if hom(p) else terms(p)
        names = {x: sympy.Symbol("v_" + x) for x in N.var + N.fun}
        names.update({str(x): x for x in par})
        txt = re.sub(r"(?<![A-Za-z_0-9])\d+", lambda x: "I(%s)" % x.group(), str(p))
        e = sympy.sympify(eval(txt, {"__builtins__": {}, "I": sympy.Integer}, names))
        if e == 0: return []
        P = sympy.Poly(e, *[names[x] for x in N.fun + N.var], *par, domain="QQ")
        g = {}
        for x, c in P.terms():
            f = list(x[:K])
            if sum(f) > 1: raise ValueError("two components")
            m = [N.c(f.index(1)) if 1 in f else -1] + list(map(int, x[K:K + n]))
            g.setdefault(tuple(m), []).append([list(map(int, x[K + n:]))] + N.coef(c))
        return [[list(m), c] for m, c in g.items()]
    def pure(p): return len({m.position() == -1 for m, _ in p}) < 2 if not diff else p[0][0].position() != -1
    def divides(g, m): return m.divisible(g.lm()) and m.position() != -1 and g.lm() == m if diff else m.divisible(g.lm()) and (m.position() == g.lm().position() or all(x.position() == -1 for x, _ in g))
    def ring(p): return all(m.position() == -1 for m, _ in p)
    def hom(p): return all(m.position() != -1 or m.degree() == 0 for m, _ in p)
    def numeric(k): return sympy.sympify(k).is_Rational
    for w in t[1:]:
        op = w[0]
        o = {"op": op}
        skip = False
        try_ = lambda c: not c
        if op == "set":
            p, ins = load(w[2:]); R[int(w[1])] = p; o.update({"d": int(w[1]), "in": ins})
        elif op == "const": c = num(w[2]); R[int(w[1])] = cls(c); o.update(d=int(w[1]), c=big(c))
        elif op == "df":                    # df(u, x, 2, y, ...) or T(...): variables in any order, repeated, with or without a number
            m = [int(w[2])] + [0] * n; A, k = [N.first[1][N.c(m[0])]], 3
            while k < len(w):
                v, x = w[k].split(":") if ":" in w[k] else (w[k], "")
                A.append(N.first[0][int(v)]); m[int(v) + 1] += int(x or 1); k += 1
                if x: A.append(int(x))
            R[int(w[1])] = (cls.df if diff else cls.T)(*A); o.update(op="mono", d=int(w[1]), m=m)
        elif op == "d2p":                   # from an expression of sympy
            _, ins = load(w[2:]); e = 0
            for m, c in terms(_):
                x = sum(sympy.Rational(*(z[0] * sum(d * 10000 ** i for i, d in enumerate(z[1:])) for z in q)) * sympy.prod([s ** d for s, d in zip(par, ee)]) for ee, *q in c)
                D = sympy.Integer(1)
                if m[0] != -1:
                    D = N.first[1][N.c(m[0])](*N.first[0])
                    for v in range(n):
                        if m[v + 1]: D = sympy.diff(D, N.first[0][v], m[v + 1])
                e += x * D
            R[int(w[1])] = cls.diff2poly(sympy.expand(e)); o.update({"op": "set", "d": int(w[1]), "in": ins})
        elif op == "mono": m = [int(x) for x in w[2:]]; R[int(w[1])] = cls(N.mono(m[0], m[1:])); o.update(d=int(w[1]), m=m)
        elif op in ("addc", "raddc", "subc", "rsubc", "multc", "rmultc", "divc", "rdivc"):
            d, a = int(w[1]), int(w[2]); k, z = number(w[3]); P = R[a]
            o.update(d=d, a=a, **z)
            f = {"addc": lambda: P + k, "raddc": lambda: k + P, "subc": lambda: P - k, "rsubc": lambda: k - P, "multc": lambda: P * k,
                 "rmultc": lambda: k * P, "divc": lambda: P / sympy.sympify(k), "rdivc": lambda: k / P}[op]
            if op == "divc" and k == 0: skip = True
            elif op == "rdivc" and not (len(P) == 1 and not P.lm() and numeric(P.lc())): skip = True
            elif op[0] == "r" and not isinstance(k, int): skip = True
            else: R[d] = f()
        elif op in ("red", "redrat"):
            d, i, a = (int(x) for x in w[1:]); P, G = R[d], R[a]
            if d == a or not G or not pure(G): skip = True
            else:
                I = [j for j in range(len(P)) if divides(G, P[j][0])]
                if not I or (op == "redrat" and not numeric(G.lc())): skip = True
                else:
                    i = I[i % len(I)]; o.update(d=d, i=i, a=a)
                    (P.reduction if op == "red" else P.redRat)(i, G)
        elif op in ("reduce", "nfhead", "nftail", "nf"):
            d, a = (int(x) for x in w[1:]); P, G = R[d], R[a]
            o.update(d=d, a=a)
            if d == a or not G or not pure(G) or (op in ("reduce", "nftail") and not P) or (op == "nf" and not numeric(G.lc())): skip = True
            elif op == "reduce": P.reduce(G)
            elif op == "nfhead": P.NFhead(G)
            elif op == "nftail": P.NFtail(G)
            elif P.NF(G) is not P: raise Harness("NF returns another object")
        elif op == "multt":
            d, a = int(w[1]), int(w[2]); k, z = number(w[3]); m = [int(x) for x in w[4:]]
            o.update(d=d, a=a, m=m, **z)
            if k == 0 or (m[0] != -1 and not ring(R[a])) or (diff and any(m)): skip = True
            else: R[d] = R[a].mult(N.mono(m[0], m[1:]), sympy.sympify(k))
        elif op == "sp":
            d, a, b = (int(x) for x in w[1:]); o.update(d=d, a=a, b=b); P, Q = R[a], R[b]
            if not P or not Q or diff or P.lm().position() != Q.lm().position(): skip = True
            else: R[d] = cls.S(P, Q)
        elif op == "end": emit(o); continue
        elif op == "q":
            a, b = (int(x) for x in w[1:]); P, Q = R[a], R[b]
            o.update(a=a, b=b, len=len(P), bool=bool(P), eq=P == Q, ne=P != Q, txt=text(P), sym=operator(P.df_sympy(), "") if diff else [], issym=diff, lm=N.pm(P.lm()) if P else [], lc=coef(P.lc()) if P else [])
            if P and Q: o.update(cmp=P.cmp(Q), found=P.find(Q.lm()) is P)
        else:
            v = [int(x) for x in w[1:]]; d = v[0]
            if op in ("copy", "pos", "neg"):
                a = v[1]; o.update(d=d, a=a); R[d] = {"copy": lambda: cls(R[a]), "pos": lambda: +R[a], "neg": lambda: -R[a]}[op]()
            elif op in ("opadd", "opsub"): a, b = v[1:]; o.update(d=d, a=a, b=b); R[d] = R[a] + R[b] if op == "opadd" else R[a] - R[b]
            elif op == "opmult":
                a, b = v[1:]; o.update(d=d, a=a, b=b)
                if not (ring(R[a]) or ring(R[b])) or len(R[a]) * len(R[b]) > 120: skip = True
                else: R[d] = R[a] * R[b]
            elif op == "pow":
                a, x = v[1:]; o.update(d=d, a=a, x=x)
                if (x > 1 and not ring(R[a])) or len(R[a]) ** max(x, 1) > 120: skip = True
                else: R[d] = R[a] ** x
            elif op == "prol": o.update(d=d, v=v[1], a=v[2]); R[d] = R[v[2]].prolong(v[1])
            elif op == "diff": o.update(d=d, v=v[1], a=v[2]); R[d] = R[v[2]].diff(par[v[1]])
            elif op == "cancel":
                o.update(d=d)
                if not R[d] or any(not numeric(k) for _, k in R[d]): skip = True
                else: R[d].cancel()
            elif op == "pp":
                o.update(d=d)
                if not R[d] or any(q != [1, 1] for _, c in terms(R[d]) for _, _, q in c): skip = True
                else: R[d].pp()
            else: raise Harness(op)
        if skip: emit({"op": "skip"}); continue
        if op != "q":
            o["st"] = [terms(p) for p in R]
            if max([len(json.dumps(x)) for x in o["st"]]) > 60000: raise Harness("too large")
        emit(o)

# -------------------------------------------------------- trees and forests
def run_janet(t):
    w = t[0]
    kind, order, n, K = w[3], int(w[4], 0), int(w[5]), int(w[6])
    N = Names(order, n, K, Poly.init)
    tree = {"janet": janet.Janet, "cache": janet.JanetCache}[kind]
    J = janet.Forest(tree) if K else tree()
    pool, els = [], []
    flag = lambda f: [1 if x else 0 for x in f]
    def rec(x): return [N.pm(x.lm), flag(x.nonmult), N.pm(x.ansector)[1:], flag(x.prolong)]
    def look(m):
        f, g = J.findWrap(m), J.find(m)
        return [] if f is None else N.pm(f.lm), [] if g is None else N.pm(g.lm())
    def offer(x, o):
        o.update(w=[N.pm(x.lm), N.pm(x.ansector)[1:]], done=J.findWrap(x.lm) is None)
        o["out"] = [N.pm(y.lm) for y in J.insert([x])] if o["done"] else []
    emit({"op": "begin", "id": int(w[1]), "n": n, "order": order, "K": K})
    for w in t[1:]:
        op, a = w[0], [int(x) for x in w[1:]]
        o = {"op": op}
        if op == "ins":
            offer(janet.Wrap(Poly(N.mono(a[0], a[1:])) * 3), o)
        elif op == "insq":
            if not pool: continue
            x = pool.pop(a[0] % len(pool))
            if a[1:]:                       # the one with this monomial and ancestor
                pool.append(x)
                x = [y for y in pool if [int(e) for e in y.lm] == a[1:1 + n] and [int(e) for e in y.ansector] == a[1 + n:]]
                if not x: continue
                x = x[0]; pool = [y for y in pool if y is not x]
            o["op"] = "ins"; offer(x, o)
        elif op == "insn":
            q, have = [], [x.lm for x in J]
            for k in range(0, len(a), n + 1):
                m = N.mono(a[k], a[k + 1:k + 1 + n])
                if not any(x.position() == m.position() and all(d <= e for d, e in zip(x, m)) for x in have): q.append(janet.Wrap(Poly(m))); have.append(m)
            o.update(w=[[N.pm(x.lm), N.pm(x.ansector)[1:]] for x in q])
            o["out"] = [N.pm(y.lm) for y in J.insert(iter(q))]
        elif op in ("pall", "pdeg", "pmon"):
            if op == "pall": q, how = J.prolongAll(), ["all"]
            elif op == "pdeg": q, how = J.prolongDeg(a[0]), ["deg", a[0]]
            else: q, how = J.prolongMonom(N.mono(a[0], a[1:])), ["mon", a]
            o = {"op": "prol", "how": how, "got": [[N.pm(x.lm), N.pm(x.ansector)[1:]] for x in q], "flags": [[flag(x.nonmult), flag(x.prolong)] for x in q]}
            if any(x.lm.cmp(x.poly.lm()) for x in q): o["got"].append("leading monomial")
            pool += q
        elif op == "mindeg": o["deg"] = J.degMinProlong()
        elif op == "find":
            f, g = look(N.mono(a[0], a[1:])); o.update(m=a, found=f, g=g, kind=kind)
        elif op == "findbox":
            o.update(p=a[0], b=a[1], found=[look(N.mono(a[0], e))[0] for e in itertools.product(range(a[1] + 1), repeat=n)])
        elif op == "hp":
            h = J.HP() if a[0] == -1 else J.HP(a[0])
            o.update(verge=a[0], hp=hilbert(h, n))
        elif op == "comb": o.update(n=a[0], deg=a[1], got=[frac(x) for x in janet.CombRepet(a[0], a[1])])
        elif op == "end": emit(o); continue
        else: raise Harness(op)
        if o["op"] in ("ins", "insn", "prol"):
            E = list(J)
            o.update(ws=[rec(x) for x in E], count=J.count(), multi=[[N.pm(x.lm), x.multi()] for x in E], gb=[N.pm(x.lm) for x in J.GB()])
        emit(o)

def frac(x):
    x = sympy.sympify(x)
    return [big(int(x.p)), big(int(x.q))]
def hilbert(h, n):
    h = list(h)
    return [frac(x) for x in h] + [[[0], [1, 1]]] * (n + 1 - len(h))

def run(t):
    {"pysys": run_sys, "pydsys": run_dsys, "pymonom": run_monom, "pypoly": run_poly, "pydiff": run_poly, "pyschem": run_poly, "pyjanet": run_janet}[t[0][2]](t)

if __name__ == "__main__":
    pyvt.main(run, cpu_s=120)
