------------------------------- MODULE DiffSys --------------------------------
(* Linear systems of differential or difference equations whose coefficients are *)
(* polynomials in the independent variables and in parameters (C26), and what it *)
(* means that a list of elements is a Janet basis of one.                        *)
(*                                                                               *)
(* An expression is a function from <<component, derivative, exponents of the    *)
(* coefficient>> to nonzero residues modulo P.  Prolonging is exact; only then   *)
(* is an expression evaluated at a point of the coefficients' variables, which   *)
(* leaves a row over the derivatives (ModPoly, packed).  At a generic point the  *)
(* combinations of rows are those of the system over the rational functions.     *)
EXTENDS ModPoly
Iv == INSTANCE Invol
Hc == INSTANCE InvolHp
Z  == INSTANCE PolyZ
Is(p) == TRUE = p
CONSTANT Extra                       \* how many orders beyond the system's membership is looked for

VARIABLES nv, np, ord, comps, diff, gens, basis, ready
vars == <<nv, np, ord, comps, diff, gens, basis, ready>>

(* ------------------------------------------------------------ expressions *)
Point(v) == PowMod(7, 1009 * v + 13)
RECURSIVE Flat2(_, _)
(* of logged terms [monomial, [exponents, numerator, denominator]...] *)
FlatOf(ts) == UNION {{<<ts[j][1] \o ts[j][2][c][1], ts[j][2][c][2], ts[j][2][c][3]>> : c \in 1..Len(ts[j][2])} : j \in 1..Len(ts)}
Flat2(ts, j) == IF j > Len(ts) THEN 0 ELSE Len(ts[j][2]) + Flat2(ts, j + 1)
Canon(ts) == /\ \A j \in 1..(Len(ts) - 1) : Z!OrdCmp(ord, ts[j][1], ts[j + 1][1]) > 0
             /\ \A j \in 1..Len(ts) : Len(ts[j][2]) > 0
             /\ Flat2(ts, 1) = Cardinality({t[1] : t \in FlatOf(ts)})
             /\ \A t \in FlatOf(ts) : t[2][1] # 0
Integral(ts) == \A t \in FlatOf(ts) : t[3] = <<1, 1>>
Expr(ts) == LET S == TLCEval(FlatOf(ts)) IN
            Nonzero(TLCEval([m \in {t[1] : t \in S} |-> LET t == CHOOSE y \in S : y[1] = m IN (BigMod(t[2]) * Inv(BigMod(t[3]))) % P]))
(* a coefficient alone, evaluated *)
RECURSIVE Value(_, _, _)
Value(e, k, x) == IF k > Len(e) THEN x ELSE Value(e, k + 1, IF e[k] = 0 THEN x ELSE (x * PowMod(Point(k), e[k])) % P)
RECURSIVE SumOf(_, _)
SumOf(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN SumOf(S \ {x}, (acc + x[2]) % P)
CoefValue(c) == SumOf(TLCEval({<<k, (Value(c[k][1], 1, BigMod(c[k][2])) * Inv(BigMod(c[k][3]))) % P>> : k \in 1..Len(c)}), 0)
Up(m, v) == TLCEval([m EXCEPT ![v] = @ + 1])
Dn(m, v) == TLCEval([m EXCEPT ![v] = @ - 1])
Plus(f, g) == LET D == TLCEval(DOMAIN f \cup DOMAIN g) IN
              Nonzero(TLCEval([k \in D |-> ((IF k \in DOMAIN f THEN f[k] ELSE 0) + (IF k \in DOMAIN g THEN g[k] ELSE 0)) % P]))
(* the derivative by variable v, or the shift *)
Prol(f, v) ==
  LET B == {m \in DOMAIN f : m[1] # -1}  a == TLCEval([k \in {Up(m, v + 1) : m \in B} |-> f[Dn(k, v + 1)]])
      p == v + 1 + nv
      D == {m \in DOMAIN f : m[p] > 0}
  IN IF ~diff THEN TLCEval([k \in {Up(m, v + 1) : m \in DOMAIN f} |-> f[Dn(k, v + 1)]])
     ELSE Plus(a, Nonzero(TLCEval([k \in {Dn(m, p) : m \in D} |-> (f[Up(k, p)] * (k[p] + 1)) % P])))
RECURSIVE Prols(_, _, _)
Prols(f, u, v) == IF v > nv THEN f ELSE IF u[v] = 0 THEN Prols(f, u, v + 1) ELSE Prols(Prol(f, v), Dn(u, v), v)
(* at the point: a row over the derivatives *)
Row(cx, f) ==
  LET S == TLCEval({<<m, KeyOf(cx, SubSeq(m, 1, nv + 1)), Value(SubSeq(m, nv + 2, Len(m)), 1, f[m])>> : m \in DOMAIN f})
      K == {s[2] : s \in S}
  IN Nonzero(TLCEval([k \in K |-> SumOf({<<s[1], s[3]>> : s \in {x \in S : x[2] = k}}, 0)]))

(* -------------------------------------------- conditions on leading monomials *)
Lms(B, c) == LET S == SelectSeq(B, LAMBDA x : x.m[1] = c) IN TLCEval([j \in DOMAIN S |-> Tail(S[j].m)])
Increasing(B) == \A j \in 1..(Len(B) - 1) : Z!OrdCmp(ord, B[j].m, B[j + 1].m) < 0
FlagsRight(B) == \A c \in {B[j].m[1] : j \in DOMAIN B} :
   LET U == Lms(B, c) IN \A j \in DOMAIN B : B[j].m[1] = c => B[j].nm = Iv!JNMs(U, Tail(B[j].m))
JDivisors(B, m) == {j \in DOMAIN B : B[j].m[1] = m[1] /\ \A v \in 2..Len(m) : B[j].m[v] = m[v] \/ (B[j].m[v] < m[v] /\ B[j].nm[v - 1] = 0)}
ProlongsCovered(B) == \A j \in DOMAIN B : \A v \in DOMAIN B[j].nm : B[j].nm[v] = 1 => Cardinality(JDivisors(B, Up(B[j].m, v + 1))) = 1
Minimal(B) == {B[j].m : j \in {x \in DOMAIN B : \A y \in DOMAIN B : y = x \/ ~(B[y].m[1] = B[x].m[1] /\ Iv!ELe(Tail(B[y].m), Tail(B[x].m)))}}

(* ---------------------------------------------------------- modulo the prime *)
MonomAt(cx, k) == <<PosOfKey(cx, k)>> \o ExpsOfKey(cx, k)
Quo(m, u) == TLCEval([v \in 1..nv |-> m[v + 1] - u[v + 1]])
DivRow(cx, B, j, m) == Row(cx, Prols(B[j].f, Quo(m, B[j].m), 1))
(* reduce a row by the multiplicative prolongations, head or everywhere *)
RECURSIVE HeadRow(_, _, _)
HeadRow(cx, f, B) ==
  IF f = NoPoly THEN f
  ELSE LET k == LeadKey(f)  m == MonomAt(cx, k)  S == JDivisors(B, m) IN
       IF S = {} THEN f
       ELSE LET g == DivRow(cx, B, CHOOSE j \in S : TRUE, m) IN
            IF k \notin DOMAIN g THEN f ELSE HeadRow(cx, Axpy(f, (f[k] * Inv(g[k])) % P, 0, g), B)
RECURSIVE AllRow(_, _, _, _)
AllRow(cx, f, B, done) ==
  IF f = NoPoly THEN done
  ELSE LET k == LeadKey(f)  m == MonomAt(cx, k)  S == JDivisors(B, m) IN
       IF S = {} THEN AllRow(cx, TLCEval([x \in DOMAIN f \ {k} |-> f[x]]), B, (k :> f[k]) @@ done)
       ELSE LET g == DivRow(cx, B, CHOOSE j \in S : TRUE, m) IN AllRow(cx, Axpy(f, (f[k] * Inv(g[k])) % P, 0, g), B, done)
Lucky(cx, B) == \A j \in DOMAIN B : LET r == Row(cx, B[j].f) IN r # NoPoly /\ LeadKey(r) = KeyOf(cx, B[j].m)
ProlongsReduce(cx, B) == \A j \in DOMAIN B : \A v \in 1..nv : B[j].nm[v] = 1 => HeadRow(cx, Row(cx, Prol(B[j].f, v)), B) = NoPoly
Contains(cx, B, gs) == \A j \in DOMAIN gs : HeadRow(cx, Row(cx, gs[j]), B) = NoPoly
(* the element's row is a combination of rows of prolonged equations *)
RECURSIVE RedPiv(_, _)
RedPiv(f, pv) == IF f = NoPoly THEN f ELSE LET k == LeadKey(f) IN IF k \notin DOMAIN pv THEN f ELSE RedPiv(Axpy(f, f[k], 0, pv[k]), pv)
RECURSIVE AddRows(_, _)
AddRows(pv, rs) == IF rs = <<>> THEN pv ELSE LET h == RedPiv(Head(rs), pv) IN
                   AddRows(IF h = NoPoly THEN pv ELSE TLCEval((LeadKey(h) :> Monic(h)) @@ pv), Tail(rs))
OrderOf(f) == LET S == {0} \cup {Iv!EDeg(SubSeq(m, 2, nv + 1)) : m \in DOMAIN f} IN CHOOSE x \in S : \A y \in S : y <= x
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* level: the prolongations of each equation by all monomials of one degree;      *)
(* the next level: each by the variables up to its first one                     *)
FirstVar(u) == IF \A v \in 1..nv : u[v] = 0 THEN nv ELSE CHOOSE v \in 1..nv : u[v] > 0 /\ \A x \in 1..(v - 1) : u[x] = 0
NextLevel(L) == TLCEval(UNION {{<<Up(p[1], v), Prol(p[2], v), p[3]>> : v \in 1..FirstVar(p[1])} : p \in L})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
(* lv: per equation its level and order; prolonged order by order *)
RECURSIVE Search(_, _, _, _, _, _)
Search(cx, gs, lv, pv, want, room) ==          \* room: <<order, last order>>
  LET now == {j \in DOMAIN gs : OrderOf(gs[j]) <= room[1]}
      new == UNION {{Row(cx, p[2]) : p \in lv[j]} : j \in now}
      pv2 == AddRows(pv, SeqOf(TLCEval(new \ {NoPoly})))
      rest == SelectSeq(TLCEval([x \in DOMAIN want |-> RedPiv(want[x], pv2)]), LAMBDA f : f # NoPoly)
  IN IF rest = <<>> THEN TRUE
     ELSE IF room[1] >= room[2] THEN FALSE
     ELSE Search(cx, gs, TLCEval([j \in DOMAIN gs |-> IF j \in now THEN NextLevel(lv[j]) ELSE lv[j]]), pv2, rest, <<room[1] + 1, room[2]>>)
Zeros == TLCEval([v \in 1..nv |-> 0])
Within(cx, B, gs) ==
  LET top == MaxOf({OrderOf(gs[j]) : j \in DOMAIN gs} \cup {OrderOf(B[j].f) : j \in DOMAIN B})
  IN Search(cx, gs, TLCEval([j \in DOMAIN gs |-> {<<Zeros, gs[j], j>>}]), <<>>, TLCEval([j \in DOMAIN B |-> Row(cx, B[j].f)]), <<0, top + Extra>>)

IsDiffBasis(cx, B, gs) ==
  /\ Increasing(B) /\ FlagsRight(B) /\ ProlongsCovered(B)
  /\ \A j \in DOMAIN B : /\ Canon(B[j].t) /\ Integral(B[j].t) /\ B[j].t # <<>> /\ B[j].t[1][1] = B[j].m
                         /\ \A k \in 2..Len(B[j].t) : JDivisors(B, B[j].t[k][1]) = {}
  /\ Lucky(cx, B) /\ ProlongsReduce(cx, B) /\ Contains(cx, B, gs) /\ Within(cx, B, gs)

(* ------------------------------------------------------------ what is asked *)
Proportional(f, g) == /\ DOMAIN f = DOMAIN g
                      /\ f # NoPoly => LET k == LeadKey(f) IN \A x \in DOMAIN f : (f[x] * g[k]) % P = (g[x] * f[k]) % P
Scaled(f, c) == TLCEval([k \in DOMAIN f |-> (f[k] * c) % P])
Comps(v) == IF v = -1 THEN (IF comps = 0 THEN {-1} ELSE 0..(comps - 1)) ELSE {c \in 0..(comps - 1) : comps - 1 - c < v}
RECURSIVE ConesIn(_, _, _)
ConesIn(B, S, k) == IF k = 0 THEN Hc!HP!HZero(nv)
   ELSE IF B[k].m[1] \notin S THEN ConesIn(B, S, k - 1)
   ELSE LET mu == Cardinality({v \in DOMAIN B[k].nm : B[k].nm[v] = 0})
        IN Hc!HP!HAdd(ConesIn(B, S, k - 1), Hc!HP!HBin(nv, mu - Iv!EDeg(Tail(B[k].m)), mu))
HilbertIn(B, S) == Hc!HP!HSub(Hc!HP!HMul(Hc!HP!HBin(nv, nv, nv), Cardinality(S)), ConesIn(B, S, Len(B)))
TopDeg(B) == MaxOf({Iv!EDeg(Tail(B[j].m)) : j \in DOMAIN B})
RECURSIVE OutsideOf(_, _, _)
OutsideOf(B, S, D) == IF S = {} THEN [k \in 1..(D + 1) |-> 0]
                      ELSE LET p == CHOOSE x \in S : TRUE  a == TLCEval(Hc!Outside(Lms(B, p), nv, D))  b == OutsideOf(B, S \ {p}, D)
                           IN TLCEval([k \in DOMAIN a |-> a[k] + b[k]])
HilbertCounts(B, S, hp) == LET D == TopDeg(B)  c == TLCEval(OutsideOf(B, S, D + nv))
                           IN \A s \in D..(D + nv) : Hc!HP!HEval(hp, s) = Hc!HP!RInt(Hc!SumTo(c, s + 1))

(* ------------------------------------------------------- the bound histories *)
Begin(n, r, o, K, d) == nv' = n /\ np' = r /\ ord' = o /\ comps' = K /\ diff' = d /\ gens' = <<>> /\ basis' = <<>> /\ ready' = TRUE
Push(f) == gens' = (IF f = NoPoly THEN gens ELSE Append(gens, f)) /\ ready' = FALSE /\ UNCHANGED <<nv, np, ord, comps, diff, basis>>
Complete(cx, B) == basis' = B /\ Is(IsDiffBasis(cx, B, gens)) /\ ready' = TRUE /\ UNCHANGED <<nv, np, ord, comps, diff, gens>>
=============================================================================
