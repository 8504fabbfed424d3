------------------------------- MODULE PyPoly --------------------------------
(* The polynomials of the pure Python package (C23).  A coefficient is a       *)
(* rational number or a polynomial in the parameters with rational             *)
(* coefficients, so a polynomial in n variables with r parameters is [f, d]:   *)
(* f a polynomial over the integers in n + r variables (PolyZ), the parameters *)
(* last, and a positive common denominator d, in lowest terms.                 *)
(* Only the first n exponents and the component take part in the order.        *)
(* With Diff (C26) the polynomials are linear differential expressions: a       *)
(* monomial of a component is a derivative, the first n parameters are the      *)
(* independent variables themselves, and prolonging by v is the derivative with *)
(* respect to v, of the coefficients too.                                       *)
EXTENDS PolyZ, TLC, Json
LOCAL INSTANCE BigInt

CONSTANTS MaxVar, MaxPar, MaxDeg, MaxCoef, PosSize, OrderSet, Diff
VARIABLES nv, np, ord, regs, act
vars == <<nv, np, ord, regs, act>>
NN == nv + np

(* ------------------------------------------------------------ the values *)
Norm(f, d) == LET g == Gcd(Content(f), d) IN
              IF f = PZero THEN [f |-> PZero, d |-> One]
              ELSE LET s == IF d[1] < 0 THEN PNeg(f) ELSE f  e == IF d[1] < 0 THEN Neg(d) ELSE d
                   IN IF g = One THEN [f |-> s, d |-> e]
                      ELSE [f |-> TLCEval([m \in DOMAIN s |-> DivT(s[m], g)]), d |-> DivT(e, g)]
QZero == [f |-> PZero, d |-> One]
QZ(f) == [f |-> f, d |-> One]
QAdd(x, y) == IF x.d = One /\ y.d = One THEN QZ(PAdd(x.f, y.f))
              ELSE Norm(PAdd(PScale(x.f, y.d), PScale(y.f, x.d)), Mul(x.d, y.d))
QNeg(x) == [x EXCEPT !.f = PNeg(@)]
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == IF x.d = One /\ y.d = One THEN QZ(PMul(x.f, y.f)) ELSE Norm(PMul(x.f, y.f), Mul(x.d, y.d))
QScale(x, p, q) == Norm(PScale(x.f, p), Mul(x.d, q))
QConst(p, q) == Norm(PConst(NN, p), q)
RECURSIVE QPow(_, _)
QPow(x, e) == IF e = 0 THEN QZ(PConst(NN, One)) ELSE IF e = 1 THEN x ELSE QMul(x, QPow(x, e - 1))
RECURSIVE QSum(_, _)
QSum(ts, i) == IF i > Len(ts) THEN QZero ELSE QAdd(Norm(PMono(ts[i][1], ts[i][2]), ts[i][3]), QSum(ts, i + 1))
(* derivative with respect to a variable or parameter of the coefficients *)
Dv(f, v) == LET D == {m \in DOMAIN f : E(m, v) > 0}
            IN TLCEval([k \in {[m EXCEPT ![v + 1] = @ - 1] : m \in D} |->
                  LET m == [k EXCEPT ![v + 1] = @ + 1] IN Mul(f[m], FromInt(E(m, v)))])
QDiff(x, v) == Norm(Dv(x.f, v), x.d)
Free(f) == TLCEval([m \in {k \in DOMAIN f : Pos(k) = -1} |-> f[m]])        \* the term without an unknown function
Bound1(f) == TLCEval([m \in {k \in DOMAIN f : Pos(k) # -1} |-> f[m]])
FProl(v, f) == IF Diff THEN PAdd(PProl(v, Bound1(f)), Dv(f, nv + v)) ELSE PProl(v, f)
QProl(v, x) == Norm(FProl(v, x.f), x.d)
(* the multiple of f by a monomial of the ring; derivatives commute *)
RECURSIVE Derive(_, _, _)
Derive(f, u, v) == IF v > nv THEN f ELSE IF E(u, v) = 0 THEN Derive(f, u, v + 1)
                   ELSE Derive(FProl(v, f), [u EXCEPT ![v + 1] = @ - 1], v)

(* ------------------------------------- terms: monomials of the first n only *)
Key(m) == SubSeq(m, 1, nv + 1)
Par(m) == SubSeq(m, nv + 2, Len(m))
Keys(f) == {Key(m) : m \in DOMAIN f}
Pad(k) == TLCEval(k \o [i \in 1..np |-> 0])
Shift(f, u) == IF Diff THEN Derive(f, u, 1) ELSE PMulT(f, Pad(u), One)
ParM(m) == TLCEval(<<-1>> \o [i \in 1..nv |-> 0] \o Par(m))
At(f, k) == LET D == {m \in DOMAIN f : Key(m) = k} IN
            TLCEval([c \in {ParM(m) : m \in D} |-> f[[i \in 1..Len(c) |-> IF i <= nv + 1 THEN k[i] ELSE c[i]]]])
Lead(f) == LET S == TLCEval(Keys(f)) IN CHOOSE k \in S : \A j \in S : j = k \/ OrdCmp(ord, k, j) > 0
(* the monomials of f, greatest first *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : x = y \/ OrdCmp(ord, x, y) > 0
                                      IN <<k>> \o Sorted(S \ {k})
TermsOf(f) == Sorted(Keys(f))
Numeric(f) == \A m \in DOMAIN f : \A v \in (nv + 1)..NN : E(m, v) = 0
NumLead(f) == Numeric(At(f, Lead(f)))
(* lead(g) divides k: multiply f by lc(g) and take away the multiple of g that *)
(* removes the term at k                                                        *)
CanCancel(f, k, g) == IF Diff THEN Pos(k) # -1 /\ Pos(Lead(g)) = Pos(k) /\ MDivides(Lead(g), k) ELSE MDivides(Lead(g), k) /\ (Pos(Lead(g)) = Pos(k) \/ \A m \in DOMAIN g : Pos(m) = -1)
CancelAt(f, k, g) == LET u == Lead(g) IN
  PSub(PMul(f, At(g, u)), PMul(Shift(g, MQuo(k, u)), At(f, k)))
Prop(r, s) == /\ Keys(r) = Keys(s)
              /\ r # PZero => LET k == CHOOSE x \in Keys(r) : TRUE  a == At(s, k)  b == At(r, k) IN PMul(r, a) = PMul(s, b)
RECURSIVE HeadNF(_, _)
HeadNF(f, g) == IF f = PZero THEN f ELSE LET k == Lead(f) IN
                IF ~CanCancel(f, k, g) THEN f ELSE HeadNF(Prim(CancelAt(f, k, g)), g)
RECURSIVE TailNF(_, _)
TailNF(f, g) == IF f = PZero THEN f
                ELSE LET l == Lead(f)  R == {k \in Keys(f) \ {l} : CanCancel(f, k, g)} IN
                     IF R = {} THEN f
                     ELSE TailNF(Prim(CancelAt(f, CHOOSE k \in R : \A j \in R : j = k \/ OrdCmp(ord, k, j) > 0, g)), g)
(* over the rationals: the leading coefficient of the divisor is a number *)
QCancel(x, k, g) == LET u == Lead(g)  c == LET h == At(g, u) IN h[CHOOSE m \in DOMAIN h : TRUE] IN
  Norm(PSub(PScale(x.f, c), PMul(Shift(g, MQuo(k, u)), At(x.f, k))), Mul(x.d, c))
RECURSIVE QNF(_, _)
QNF(x, g) == LET R == {k \in Keys(x.f) : CanCancel(x.f, k, g)} IN
             IF R = {} THEN x
             ELSE QNF(QCancel(x, CHOOSE k \in R : \A j \in R : j = k \/ OrdCmp(ord, k, j) > 0, g), g)
(* the S-polynomial, up to a factor *)
SPolyOf(f, g) == LET a == Lead(f)  b == Lead(g)
                     l == TLCEval([k \in 1..Len(a) |-> IF a[k] > b[k] THEN a[k] ELSE b[k]])
                 IN PSub(PMul(Shift(f, MQuo(l, a)), At(g, b)), PMul(Shift(g, MQuo(l, b)), At(f, a)))

(* ------------------------------------------------------------- operations *)
Reg(k) == k \in 1..Len(regs)
Put(k, x) == Reg(k) /\ regs' = [regs EXCEPT ![k] = x] /\ UNCHANGED <<nv, np, ord>>
Begin(nr, n, r, o) == nv' = n /\ np' = r /\ ord' = o /\ regs' = [k \in 1..nr |-> QZero]

SetQ(d, ts) == Put(d, QSum(ts, 1))
ConstQ(d, p) == Put(d, QConst(p, One))
MonoQ(d, m) == Put(d, QZ(PMono(Pad(m), One)))
CopyQ(d, a) == Put(d, regs[a])
NegQ(d, a) == Put(d, QNeg(regs[a]))
AddQ(d, a, b) == Put(d, QAdd(regs[a], regs[b]))
SubQ(d, a, b) == Put(d, QSub(regs[a], regs[b]))
MultQ(d, a, b) == Is(CanPMul(regs[a].f, regs[b].f)) /\ Put(d, QMul(regs[a], regs[b]))
AddN(d, a, p, q) == Put(d, QAdd(regs[a], QConst(p, q)))
SubN(d, a, p, q) == Put(d, QSub(regs[a], QConst(p, q)))
RSubN(d, a, p, q) == Put(d, QSub(QConst(p, q), regs[a]))
MultN(d, a, p, q) == Put(d, QScale(regs[a], p, q))
DivN(d, a, p, q) == p # Zero /\ Put(d, QScale(regs[a], q, p))
IsNumber(x) == x.f # PZero /\ DOMAIN x.f = {Unit(NN, -1)}
RDivN(d, a, p, q) == IsNumber(regs[a]) /\ Put(d, Norm(PConst(NN, Mul(p, regs[a].d)), Mul(q, regs[a].f[Unit(NN, -1)])))
PowQ(d, a, x) == Is(x >= 2 => CanPMul(regs[a].f, regs[a].f)) /\ Put(d, QPow(regs[a], x))
ProlQ(d, v, a) == Put(d, QProl(v, regs[a]))
MultT(d, a, m, p, q) == /\ p # Zero /\ Is(\A k \in DOMAIN regs[a].f : CanMul(k, m))
                        /\ Put(d, Norm(PMulT(regs[a].f, Pad(m), p), Mul(regs[a].d, q)))
DiffQ(d, v, a) == Put(d, QDiff(regs[a], nv + v))
(* up to a factor: r is the value the implementation arrived at *)
SPoly(d, a, b, r) == /\ regs[a].f # PZero /\ regs[b].f # PZero
                     /\ Is(Pos(Lead(regs[a].f)) = Pos(Lead(regs[b].f)))
                     /\ Is(Prop(r.f, SPolyOf(regs[a].f, regs[b].f))) /\ Put(d, r)
(* the least multiple with integer coefficients *)
Integral(d) == Put(d, QZ(regs[d].f))
PrimPart(d, r) == /\ Is(r.d = One /\ (np = 0 => IsPrimitive(r.f)) /\ Prop(r.f, regs[d].f)) /\ Put(d, r)
Red(d, k, a, r) == /\ d # a /\ regs[a].f # PZero /\ Is(k \in Keys(regs[d].f) /\ CanCancel(regs[d].f, k, regs[a].f))
                   /\ Is(Prop(r.f, CancelAt(regs[d].f, k, regs[a].f))) /\ Put(d, r)
RedRat(d, k, a) == /\ d # a /\ regs[a].f # PZero /\ Is(NumLead(regs[a].f) /\ k \in Keys(regs[d].f) /\ CanCancel(regs[d].f, k, regs[a].f))
                   /\ Put(d, QCancel(regs[d], k, regs[a].f))
Reduce(d, a, r) == /\ d # a /\ regs[d].f # PZero /\ regs[a].f # PZero
                   /\ Is(LET k == Lead(regs[a].f) IN
                         IF k \in Keys(regs[d].f) THEN Prop(r.f, CancelAt(regs[d].f, k, regs[a].f)) ELSE r = regs[d])
                   /\ Put(d, r)
NFHeadQ(d, a, r) == d # a /\ regs[a].f # PZero /\ Is(Prop(r.f, HeadNF(regs[d].f, regs[a].f))) /\ Put(d, r)
NFTailQ(d, a, r) == d # a /\ regs[a].f # PZero /\ regs[d].f # PZero /\ Is(Prop(r.f, TailNF(regs[d].f, regs[a].f))) /\ Put(d, r)
NFQ(d, a) == d # a /\ regs[a].f # PZero /\ Is(NumLead(regs[a].f)) /\ Put(d, QNF(regs[d], regs[a].f))

(* ------------------------------------------------- exhaustive configuration *)
Rs == 1..2
PosSet == {-1} \cup 0..(PosSize - 2)
SmallKeys == {m \in {<<p>> \o x : p \in PosSet, x \in [1..nv -> 0..MaxDeg]} : Deg(m) <= MaxDeg /\ (Diff /\ Pos(m) = -1 => Deg(m) = 0)}
Cs == {FromInt(k) : k \in (-MaxCoef)..MaxCoef}
Two == FromInt(2)
Init == /\ nv \in 1..MaxVar /\ np = MaxPar /\ ord \in OrderSet /\ regs = [k \in Rs |-> QZero] /\ act = <<"begin">>
InBox(x) == /\ x.d \in {One, Two} /\ (Diff => x.d = One /\ Cardinality(DOMAIN x.f) <= 2)
            /\ \A m \in DOMAIN x.f : Deg(m) <= MaxDeg /\ x.f[m] \in Cs
Next ==
  \/ \E d \in Rs, m \in SmallKeys : MonoQ(d, m) /\ act' = <<"mono", d, m>>
  \/ \E d \in Rs, c \in Cs : ConstQ(d, c) /\ act' = <<"const", d, c>>
  \/ \E d, a \in Rs, c \in Cs, q \in {One, Two} :
        \/ AddN(d, a, c, q) /\ act' = <<"addc", d, a, c, q>>
        \/ RSubN(d, a, c, q) /\ act' = <<"rsubc", d, a, c, q>>
        \/ MultN(d, a, c, q) /\ act' = <<"multc", d, a, c, q>>
        \/ DivN(d, a, c, q) /\ act' = <<"divc", d, a, c, q>>
        \/ RDivN(d, a, c, q) /\ act' = <<"rdivc", d, a, c, q>>
  \/ \E d, a \in Rs : \/ CopyQ(d, a) /\ act' = <<"copy", d, a>>
                      \/ NegQ(d, a) /\ act' = <<"neg", d, a>>
                      \/ d # a /\ Is(regs[a].f # PZero /\ regs[d].f # PZero /\ NumLead(regs[a].f) /\ regs[d].d = One /\ regs[a].d = One) /\ NFQ(d, a) /\ act' = <<"nf", d, a>>
                      \/ \E v \in 1..nv : ProlQ(d, v, a) /\ act' = <<"prol", d, v, a>>
                      \/ \E v \in 1..np : DiffQ(d, v, a) /\ act' = <<"diff", d, v, a>>
                      \/ \E x \in 0..2 : PowQ(d, a, x) /\ act' = <<"pow", d, a, x>>
                      \/ \E b \in Rs : \/ AddQ(d, a, b) /\ act' = <<"opadd", d, a, b>>
                                       \/ SubQ(d, a, b) /\ act' = <<"opsub", d, a, b>>
                                       \/ MultQ(d, a, b) /\ act' = <<"opmult", d, a, b>>
  \/ \E d \in Rs : Is(regs[d].f # PZero) /\ Integral(d) /\ act' = <<"cancel", d>>
Spec == Init /\ [][Next]_vars
View == <<nv, np, ord, regs>>
Bound == \A k \in Rs : InBox(regs[k])
Lst(x) == {<<m, x.f[m], x.d>> : m \in DOMAIN x.f}
Emit == PrintT(<<"EDGE", ToJson(<<nv, ord, [k \in Rs |-> Lst(regs[k])]>>), ToJson(act'), ToJson(<<nv', ord', [k \in Rs |-> Lst(regs'[k])]>>)>>)

TypeOK == \A k \in Rs : regs[k].d[1] = 1 /\ Gcd(Content(regs[k].f), regs[k].d) = One
RingLaws ==
  LET x == regs[1]  y == regs[2] IN
  /\ QAdd(x, y) = QAdd(y, x) /\ QSub(QAdd(x, y), y) = x /\ QSub(x, y) = QNeg(QSub(y, x))
  /\ CanPMul(x.f, y.f) => QMul(x, y) = QMul(y, x)
  /\ (CanPMul(x.f, y.f) /\ CanPMul(x.f, x.f)) => QMul(x, QAdd(x, y)) = QAdd(QMul(x, x), QMul(x, y))
  /\ QScale(QScale(x, Two, One), One, Two) = x
  /\ \A v \in 1..np : /\ QDiff(QAdd(x, y), nv + v) = QAdd(QDiff(x, nv + v), QDiff(y, nv + v))
                      /\ CanPMul(x.f, y.f) => QDiff(QMul(x, y), nv + v) = QAdd(QMul(QDiff(x, nv + v), y), QMul(x, QDiff(y, nv + v)))
(* reductions take the term away, bring in only smaller ones; normal forms are irreducible *)
RedLaws ==
  LET x == regs[1]  y == regs[2] IN
  y.f # PZero =>
    /\ \A k \in Keys(x.f) : CanCancel(x.f, k, y.f) =>
         LET r == CancelAt(x.f, k, y.f) IN
         /\ k \notin Keys(r) /\ \A j \in Keys(r) \ Keys(x.f) : OrdCmp(ord, k, j) > 0
         /\ NumLead(y.f) => Prop(QCancel(x, k, y.f).f, r)
    /\ NumLead(y.f) => LET n == QNF(x, y.f) IN \A k \in Keys(n.f) : ~CanCancel(n.f, k, y.f)
(* derivations: additive, commuting, Leibniz' rule, and the lead moves by one *)
DiffLaws ==
  LET x == regs[1]  y == regs[2] IN
  /\ \A v \in 1..nv : /\ QProl(v, QAdd(x, y)) = QAdd(QProl(v, x), QProl(v, y))
                      /\ (\A m \in DOMAIN x.f : Pos(m) = -1) =>
                           QProl(v, QMul(x, y)) = QAdd(QMul(QProl(v, x), y), QMul(x, QProl(v, y)))
                      /\ (x.f # PZero /\ Pos(Lead(x.f)) # -1) => Lead(QProl(v, x).f) = MProl(v, Lead(x.f))
                      /\ \A u \in 1..nv : QProl(u, QProl(v, x)) = QProl(v, QProl(u, x))
=============================================================================
