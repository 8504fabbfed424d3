------------------------------ MODULE Involutive -----------------------------
(* Completion of polynomial generators to a Janet basis (C01) and what its      *)
(* users ask of it: normal forms, lookups (C02), Hilbert polynomials (C03).     *)
(* The basis is a sequence of records [m, nm, anc, t]: leading monomial, flags  *)
(* of nonmultiplicative variables, ancestor and the list of terms.              *)
EXTENDS ModPoly
Iv == INSTANCE Invol
Hc == INSTANCE InvolHp
Z  == INSTANCE PolyZ
BI == INSTANCE BigInt
Is(p) == TRUE = p

VARIABLES nv, ord, gens, basis, one, ready     \* gens: the nonzero generators pushed, as lists of terms
vars == <<nv, ord, gens, basis, one, ready>>

MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
PosIn(ts) == {ts[i][1][1] : i \in DOMAIN ts}
Top(gs) == MaxOf(UNION {PosIn(gs[i]) : i \in DOMAIN gs}, -1)
Positions(gs) == -1..Top(gs)
Lms(B, pos) == LET S == SelectSeq(B, LAMBDA x : x.m[1] = pos) IN TLCEval([i \in DOMAIN S |-> Tail(S[i].m)])

(* ------------------------------------------- the conditions on the leading monomials *)
Increasing(B, o) == \A i \in 1..(Len(B) - 1) : Z!OrdCmp(o, B[i].m, B[i + 1].m) < 0
FlagsRight(B) == \A p \in {B[i].m[1] : i \in DOMAIN B} :
   LET U == Lms(B, p) IN \A i \in DOMAIN B : B[i].m[1] = p => B[i].nm = Iv!JNMs(U, Tail(B[i].m))
(* the elements that divide a monomial by their multiplicative variables *)
JDivisors(B, m) == {i \in DOMAIN B : B[i].m[1] = m[1] /\ \A v \in 2..Len(m) : B[i].m[v] = m[v] \/ (B[i].m[v] < m[v] /\ B[i].nm[v - 1] = 0)}
MProl(m, v) == TLCEval([m EXCEPT ![v + 1] = @ + 1])
ProlongsCovered(B) == \A i \in DOMAIN B : \A v \in DOMAIN B[i].nm : B[i].nm[v] = 1 => Cardinality(JDivisors(B, MProl(B[i].m, v))) = 1

(* --------------------------------------------------- the conditions on each element *)
Canonical(x, o) == /\ x.t # <<>> /\ Z!CanonList(x.t, o) /\ x.t[1][1] = x.m
Primitive(ts) == ts = <<>> \/ Z!IsPrimitive(Z!OfList(ts))
TailIrreducible(B, ts) == \A j \in 2..Len(ts) : JDivisors(B, ts[j][1]) = {}
Irreducible(B, ts) == \A j \in 1..Len(ts) : JDivisors(B, ts[j][1]) = {}

(* -------------------------------------------------- the conditions modulo the prime *)
ModGens(cx, gs) == SelectSeq(TLCEval([i \in DOMAIN gs |-> OfTerms(cx, gs[i])]), LAMBDA f : f # NoPoly)
ModBasis(cx, B) == TLCEval([i \in DOMAIN B |-> JanetDivisorOf(cx, OfTerms(cx, B[i].t), B[i].nm)])
(* a prime that divides a leading coefficient decides nothing *)
Lucky(cx, B) == \A i \in DOMAIN B : BigMod(B[i].t[1][2]) # 0
ProlongsReduce(cx, MB) == \A i \in DOMAIN MB : \A v \in 1..cx.n : MB[i].nm[v] = 1 =>
   LET s == -cx.w[v]  f == TLCEval([k \in {x + s : x \in DOMAIN MB[i].f} |-> MB[i].f[k - s]])
   IN NfHead(cx, f, MB) = NoPoly
Contains(cx, MB, mg) == \A i \in DOMAIN mg : NfHead(cx, mg[i], MB) = NoPoly
Within(cx, MB, mg, ideal) == AllIn(cx, mg, TLCEval([i \in DOMAIN MB |-> MB[i].f]), ideal)

IsJanetBasis(cx, B, gs) ==
  /\ \A i \in DOMAIN B : Canonical(B[i], cx.ord)
  /\ Increasing(B, cx.ord) /\ FlagsRight(B) /\ ProlongsCovered(B)
  /\ \A i \in DOMAIN B : Primitive(B[i].t) /\ TailIrreducible(B, B[i].t)
  /\ Lucky(cx, B)
  /\ LET MB == ModBasis(cx, B)  mg == ModGens(cx, gs) IN
     /\ ProlongsReduce(cx, MB)
     /\ Contains(cx, MB, mg)
     /\ Within(cx, MB, mg, Top(gs) = -1)
(* what makes a zero normal form the same as membership *)
Decides(cx, B, gs) == Lucky(cx, B) /\ LET MB == ModBasis(cx, B) IN ProlongsReduce(cx, MB) /\ Contains(cx, MB, ModGens(cx, gs))
(* the elements marked as a Groebner basis (those that are their own ancestors, *)
(* mk their flags) are one: ordinary division by them takes the generators and  *)
(* the S-polynomials to zero, and every leading monomial is a multiple of one   *)
Ancestors(B) == \A i \in DOMAIN B : B[i].anc[1] = B[i].m[1] /\ Iv!ELe(Tail(B[i].anc), Tail(B[i].m)) /\ \E j \in DOMAIN B : B[j].m = B[i].anc
MarkedOf(B) == TLCEval(SelectSeq(B, LAMBDA x : x.anc = x.m))
MarkedGroebner(cx, B, gs) ==
  LET G == MarkedOf(B)
      D == TLCEval([i \in DOMAIN G |-> DivisorOf(cx, OfTerms(cx, G[i].t))])
      mg == ModGens(cx, gs)
  IN /\ \A i \in DOMAIN B : \E j \in DOMAIN G : G[j].m[1] = B[i].m[1] /\ Iv!ELe(Tail(G[j].m), Tail(B[i].m))
     /\ Lucky(cx, G)
     /\ AllZero(cx, D, mg)
     /\ \A i, j \in DOMAIN D : i < j /\ D[i].m[1] = D[j].m[1] /\ ~(Top(gs) = -1 /\ Coprime(D[i].m, D[j].m)) => NfHead(cx, SPoly(cx, D[i], D[j]), D) = NoPoly
     /\ AllIn(cx, mg, TLCEval([i \in DOMAIN D |-> D[i].f]), Top(gs) = -1)
UnitKey(cx) == KeyOf(cx, TLCEval([i \in 1..(cx.n + 1) |-> IF i = 1 THEN -1 ELSE 0]))
UnitPoly(cx) == TLCEval([k \in {UnitKey(cx)} |-> 1])
HasUnit(cx, gs) == LET mg == ModGens(cx, gs) IN AllIn(cx, mg, <<UnitPoly(cx)>>, TRUE)
NoConstant(B) == \A i \in DOMAIN B : B[i].m[1] = -1 => \E v \in 2..Len(B[i].m) : B[i].m[v] > 0

(* --------------------------------------------------------------- what is asked *)
ModProportional(f, g) == /\ DOMAIN f = DOMAIN g
                         /\ f # NoPoly => LET k == LeadKey(f) IN \A x \in DOMAIN f : (f[x] * g[k]) % P = (g[x] * f[k]) % P
NormalForm(cx, B, p) == NfAll(cx, OfTerms(cx, p), ModBasis(cx, B), NoPoly)
IsNormalForm(cx, B, p, r) ==
  /\ Z!CanonList(r, cx.ord) /\ Primitive(r) /\ Irreducible(B, r)
  /\ LET h == NormalForm(cx, B, p) IN ModProportional(OfTerms(cx, r), h)
RECURSIVE ConesFrom(_, _, _)
ConesFrom(B, n, k) == IF k = 0 THEN Hc!HP!HZero(n)
   ELSE LET mu == Cardinality({v \in DOMAIN B[k].nm : B[k].nm[v] = 0})
        IN Hc!HP!HAdd(ConesFrom(B, n, k - 1), Hc!HP!HBin(n, mu - Iv!EDeg(Tail(B[k].m)), mu))
HilbertOf(B, n, gs) == Hc!HP!HSub(Hc!HP!HMul(Hc!HP!HBin(n, n, n), Top(gs) + 2), ConesFrom(B, n, Len(B)))
(* of one component *)
HilbertOfComp(B, n, p) == LET S == SelectSeq(B, LAMBDA b : b.m[1] = p) IN Hc!HP!HSub(Hc!HP!HBin(n, n, n), ConesFrom(S, n, Len(S)))
TopDeg(B) == MaxOf({Iv!EDeg(Tail(B[i].m)) : i \in DOMAIN B}, 0)
RECURSIVE AddSeq(_, _)
AddSeq(a, b) == TLCEval([k \in DOMAIN a |-> a[k] + b[k]])
RECURSIVE OutsideAll(_, _, _, _)
OutsideAll(B, n, p, D) == IF p < -1 THEN [k \in 1..(D + 1) |-> 0]
                          ELSE AddSeq(Hc!Outside(Lms(B, p), n, D), OutsideAll(B, n, p - 1, D))
HilbertCounts(B, n, gs, hp) ==
  LET D == TopDeg(B)  c == OutsideAll(B, n, Top(gs), D + n)
  IN \A s \in D..(D + n) : Hc!HP!HEval(hp, s) = Hc!HP!RInt(Hc!SumTo(c, s + 1))
=============================================================================
