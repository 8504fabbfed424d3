------------------------------- MODULE PolyZ --------------------------------
(* Polynomials (module elements) with exact integer coefficients: functions  *)
(* from monomials (Mono) to nonzero integers (BigInt); zero has empty domain. *)
EXTENDS Mono, FiniteSets
LOCAL INSTANCE TLC
LOCAL B == INSTANCE BigInt

PZero == [m \in {} |-> m]
Coef(f, m) == IF m \in DOMAIN f THEN f[m] ELSE B!Zero
Clean(h) == LET g == TLCEval(h) IN TLCEval([m \in {x \in DOMAIN g : g[x] # B!Zero} |-> g[m]])
PMono(m, c) == IF c = B!Zero THEN PZero ELSE [x \in {m} |-> c]

PAdd(f, g) == Clean([m \in DOMAIN f \cup DOMAIN g |-> B!Add(Coef(f, m), Coef(g, m))])
PNeg(f) == TLCEval([m \in DOMAIN f |-> B!Neg(f[m])])
PSub(f, g) == PAdd(f, PNeg(g))
PScale(f, c) == IF c = B!Zero THEN PZero ELSE TLCEval([m \in DOMAIN f |-> B!Mul(f[m], c)])
(* product with the term c * x^t; t is a monomial whose component is used *)
PMulT(f, t, c) ==
  IF c = B!Zero THEN PZero
  ELSE LET img(m) == MMul(m, t)
       IN IF Pos(t) = -1
          THEN LET back(k) == TLCEval([i \in 1..Len(k) |-> IF i = 1 THEN k[1] ELSE k[i] - t[i]])
               IN TLCEval([k \in {img(m) : m \in DOMAIN f} |-> B!Mul(f[back(k)], c)])
          ELSE LET back(k) == TLCEval([i \in 1..Len(k) |-> IF i = 1 THEN -1 ELSE k[i] - t[i]])
               IN TLCEval([k \in {img(m) : m \in DOMAIN f} |-> B!Mul(f[back(k)], c)])
CanPMul(f, g) == \A a \in DOMAIN f, b \in DOMAIN g : CanMul(a, b)
RECURSIVE PMulR(_, _, _)
PMulR(f, g, S) == IF S = {} THEN PZero
                  ELSE LET m == CHOOSE x \in S : TRUE
                       IN PAdd(PMulT(f, m, g[m]), PMulR(f, g, S \ {m}))
PMul(f, g) == IF Cardinality(DOMAIN f) >= Cardinality(DOMAIN g) THEN PMulR(f, g, DOMAIN g) ELSE PMulR(g, f, DOMAIN f)
PConst(n, c) == PMono(Unit(n, -1), c)
RECURSIVE PPow(_, _, _)
PPow(n, f, e) == IF e = 0 THEN PConst(n, B!One) ELSE IF e = 1 THEN f ELSE PMul(f, PPow(n, f, e - 1))
PProl(v, f) == TLCEval([k \in {MProl(v, m) : m \in DOMAIN f} |-> f[[k EXCEPT ![v + 1] = @ - 1]]])

(* -------------------------------------------------- lists of terms <-> maps *)
Strict(ts, ord) == \A i \in 1..(Len(ts) - 1) : OrdCmp(ord, ts[i][1], ts[i + 1][1]) > 0
CanonList(ts, ord) == /\ \A i \in 1..Len(ts) : B!IsBig(ts[i][2]) /\ ts[i][2] # B!Zero
                      /\ Strict(ts, ord)
(* meaning of a duplicate-free list of terms *)
OfList(ts) == LET D == {ts[i][1] : i \in 1..Len(ts)}
              IN TLCEval([m \in D |-> LET i == CHOOSE j \in 1..Len(ts) : ts[j][1] = m IN ts[i][2]])
(* sum of any list of terms *)
RECURSIVE SumList(_, _)
SumList(ts, i) == IF i > Len(ts) THEN PZero ELSE PAdd(PMono(ts[i][1], ts[i][2]), SumList(ts, i + 1))
(* the list is the canonical form of f *)
Represents(ts, f, ord) == CanonList(ts, ord) /\ Len(ts) = Cardinality(DOMAIN f) /\ OfList(ts) = f

PLm(f, ord) == CHOOSE m \in DOMAIN f : \A k \in DOMAIN f : k = m \/ OrdCmp(ord, m, k) > 0
PLc(f, ord) == f[PLm(f, ord)]

RECURSIVE ContR(_, _, _)
ContR(f, S, g) == IF S = {} THEN g ELSE LET m == CHOOSE x \in S : TRUE IN
                  LET h == B!Gcd(g, f[m]) IN IF h = B!One THEN h ELSE ContR(f, S \ {m}, h)
Content(f) == IF f = PZero THEN B!Zero ELSE ContR(f, DOMAIN f, B!Zero)
IsPrimitive(f) == f = PZero \/ Content(f) = B!One

(* f and g are nonzero rational multiples of each other (or both zero) *)
Proportional(f, g) ==
  /\ DOMAIN f = DOMAIN g
  /\ f # PZero =>
       LET m == CHOOSE x \in DOMAIN f : TRUE
       IN \A k \in DOMAIN f : B!Mul(f[k], g[m]) = B!Mul(g[k], f[m])

(* cancel the term of f at monomial t by a multiple of g (lm(g) divides t) *)
Cancel(f, t, g, ord) ==
  LET u == PLm(g, ord)
      q == MQuo(t, u)
  IN PSub(PScale(f, g[u]), PMulT(g, q, f[t]))
Prim(f) == IF f = PZero THEN f ELSE LET c == Content(f) IN TLCEval([m \in DOMAIN f |-> B!DivT(f[m], c)])

(* normal form by a list of divisors, the first divisor of the component wins *)
FirstDivisor(gs, m, ord) ==
  LET S == {i \in 1..Len(gs) : SameDivides(PLm(gs[i], ord), m)}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE NFHead(_, _, _)
NFHead(f, gs, ord) == IF f = PZero THEN f
                      ELSE LET t == PLm(f, ord)  i == FirstDivisor(gs, t, ord)
                           IN IF i = 0 THEN f ELSE NFHead(Prim(Cancel(f, t, gs[i], ord)), gs, ord)
(* tail: largest reducible monomial other than the leading one first *)
RECURSIVE NFTail(_, _, _)
NFTail(f, gs, ord) ==
  IF f = PZero THEN f
  ELSE LET l == PLm(f, ord)
           R == {m \in DOMAIN f \ {l} : FirstDivisor(gs, m, ord) # 0}
       IN IF R = {} THEN f
          ELSE LET t == CHOOSE m \in R : \A k \in R : k = m \/ OrdCmp(ord, m, k) > 0
               IN NFTail(Prim(Cancel(f, t, gs[FirstDivisor(gs, t, ord)], ord)), gs, ord)
=============================================================================
