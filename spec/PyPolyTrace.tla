----------------------------- MODULE PyPolyTrace -----------------------------
(* Logs of the polynomials of the pure Python package.  Every register is read  *)
(* again after every call: a term is [monomial, [exponents of the parameters,   *)
(* numerator, denominator]...].                                                 *)
EXTENDS PyPoly, TraceLib
LOCAL INSTANCE BigInt
VARIABLE lst

Ts(k) == ev.st[k]
(* the list as a set of <<monomial with parameters, numerator, denominator>> *)
Flat(ts) == UNION {{<<ts[j][1] \o ts[j][2][c][1], ts[j][2][c][2], ts[j][2][c][3]>> : c \in 1..Len(ts[j][2])} : j \in 1..Len(ts)}
RECURSIVE CountT(_, _)
CountT(ts, j) == IF j > Len(ts) THEN 0 ELSE Len(ts[j][2]) + CountT(ts, j + 1)
StrictT(ts) == \A j \in 1..(Len(ts) - 1) : OrdCmp(ord', ts[j][1], ts[j + 1][1]) > 0
CanonT(ts) == /\ StrictT(ts) /\ \A j \in 1..Len(ts) : Len(ts[j][2]) > 0
              /\ \A t \in Flat(ts) : IsBig(t[2]) /\ IsBig(t[3]) /\ t[2] # Zero /\ t[3][1] = 1
RepresentsQ(ts, x) == /\ CanonT(ts) /\ CountT(ts, 1) = Cardinality(DOMAIN x.f)
                      /\ \A t \in Flat(ts) : t[1] \in DOMAIN x.f /\ Mul(t[2], x.d) = Mul(x.f[t[1]], t[3])
(* the value of a list that is in canonical form *)
RECURSIVE ProdDen(_, _)
ProdDen(S, p) == IF S = {} THEN p ELSE LET t == CHOOSE x \in S : TRUE IN
                 ProdDen(S \ {t}, IF Divides(t[3], p) THEN p ELSE DivT(Mul(p, t[3]), Gcd(p, t[3])))
ValT(ts) == LET S == TLCEval(Flat(ts))  D == TLCEval(ProdDen(S, One)) IN
            Norm([m \in {t[1] : t \in S} |-> LET t == CHOOSE y \in S : y[1] = m IN Mul(t[2], DivT(D, t[3]))], D)
Obs == /\ Len(ev.st) = Len(regs') /\ lst' = ev.st
       /\ Is(\A k \in 1..Len(ev.st) :
            IF regs'[k] = regs[k] /\ Len(lst) = Len(ev.st) /\ ev.st[k] = lst[k] THEN TRUE
            ELSE RepresentsQ(ev.st[k], regs'[k]))
Step(op, A) == IsEvent(op) /\ A /\ Obs /\ act' = act
Query(op) == IsEvent(op) /\ UNCHANGED <<vars, lst>>
D == ev.d + 1
A1 == ev.a + 1
B1 == ev.b + 1
Got == TLCEval(ValT(ev.st[D]))
Canon == ord' = ord /\ Is(CanonT(ev.st[D]))
PBegin == IsEvent("begin") /\ Begin(ev.nr, ev.n, ev.r, ev.order) /\ act' = act /\ lst' = [k \in 1..ev.nr |-> <<>>]
PRing ==
  \/ Step("set", SetQ(D, ev.in)) \/ Step("const", ConstQ(D, ev.c)) \/ Step("mono", MonoQ(D, ev.m))
  \/ Step("copy", CopyQ(D, A1)) \/ Step("pos", CopyQ(D, A1)) \/ Step("neg", NegQ(D, A1))
  \/ Step("opadd", AddQ(D, A1, B1)) \/ Step("opsub", SubQ(D, A1, B1)) \/ Step("opmult", MultQ(D, A1, B1))
  \/ Step("addc", AddN(D, A1, ev.p, ev.q)) \/ Step("raddc", AddN(D, A1, ev.p, ev.q))
  \/ Step("subc", SubN(D, A1, ev.p, ev.q)) \/ Step("rsubc", RSubN(D, A1, ev.p, ev.q))
  \/ Step("multc", MultN(D, A1, ev.p, ev.q)) \/ Step("rmultc", MultN(D, A1, ev.p, ev.q))
  \/ Step("divc", DivN(D, A1, ev.p, ev.q)) \/ Step("rdivc", RDivN(D, A1, ev.p, ev.q))
  \/ Step("pow", PowQ(D, A1, ev.x)) \/ Step("prol", ProlQ(D, ev.v + 1, A1)) \/ Step("diff", DiffQ(D, ev.v + 1, A1))
  \/ Step("multt", MultT(D, A1, ev.m, ev.p, ev.q))
PRed ==
  \/ Step("sp", Canon /\ SPoly(D, A1, B1, Got))
  \/ Step("cancel", Is(regs[D].f # PZero) /\ Integral(D))
  \/ Step("pp", Canon /\ PrimPart(D, Got))
  \/ Step("red", Canon /\ Red(D, TermsOf(regs[D].f)[ev.i + 1], A1, Got))
  \/ Step("redrat", RedRat(D, TermsOf(regs[D].f)[ev.i + 1], A1))
  \/ Step("reduce", Canon /\ Reduce(D, A1, Got))
  \/ Step("nfhead", Canon /\ NFHeadQ(D, A1, Got))
  \/ Step("nftail", Canon /\ NFTailQ(D, A1, Got))
  \/ Step("nf", NFQ(D, A1))
PSkip == Query("skip")
PQ == /\ Query("q")
      /\ Is(LET x == regs[A1]  y == regs[B1] IN
         /\ ev.len = Cardinality(Keys(x.f)) /\ ev.bool = (x.f # PZero)
         /\ CountT(ev.txt, 1) = Cardinality(DOMAIN x.f)
         /\ \A t \in Flat(ev.txt) : t[1] \in DOMAIN x.f /\ Mul(t[2], x.d) = Mul(x.f[t[1]], t[3])
         /\ ev.issym => /\ CountT(ev.sym, 1) = Cardinality(DOMAIN x.f)
                        /\ \A t \in Flat(ev.sym) : t[1] \in DOMAIN x.f /\ Mul(t[2], x.d) = Mul(x.f[t[1]], t[3])
         /\ (np = 0 \/ x = y => ev.eq = (x = y)) /\ (np = 0 => ev.ne = (x # y))
         /\ x.f # PZero =>
              LET l == Lead(x.f) IN
              /\ ev.lm = l /\ Flat(<<<<l, ev.lc>>>>) = {t \in Flat(lst[A1]) : Key(t[1]) = l}
              /\ y.f # PZero => ev.cmp = OrdCmp(ord, l, Lead(y.f)) /\ ev.found = MDivides(l, Lead(y.f)))
PEnd == /\ IsEvent("end") /\ regs' = <<>> /\ lst' = <<>> /\ UNCHANGED <<nv, np, ord, act>>
TraceInit == tick = 1 /\ nv = 1 /\ np = 0 /\ ord = 18 /\ regs = <<>> /\ act = <<>> /\ lst = <<>>
TraceNext == PBegin \/ PRing \/ PRed \/ PSkip \/ PQ \/ PEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, lst, tick>>
=============================================================================
