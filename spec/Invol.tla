-------------------------------- MODULE Invol --------------------------------
(* Involutive divisions on finite sets of exponent vectors, by definition.     *)
(* A set of elements is a sequence U of exponent vectors (tuples of naturals). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Functions

ELe(u, m) == \A k \in DOMAIN u : u[k] <= m[k]
EDeg(u) == FoldFunction(+, 0, u)
EProl(u, v) == TLCEval([u EXCEPT ![v] = @ + 1])
EAddAt(u, v, d) == TLCEval([u EXCEPT ![v] = @ + d])
EUnit(n) == TLCEval([k \in 1..n |-> 0])
SamePrefix(u, w, v) == \A k \in 1..(v - 1) : u[k] = w[k]

(* Janet division: v is nonmultiplicative for u when some element agrees with *)
(* u before v and exceeds it at v                                             *)
JNM(U, u, v) == \E i \in DOMAIN U : U[i][v] > u[v] /\ SamePrefix(U[i], u, v)
JNMs(U, u) == TLCEval([v \in 1..Len(u) |-> IF JNM(U, u, v) THEN 1 ELSE 0])
(* u divides m by its multiplicative variables (nm: its flags) *)
InvDiv(u, nm, m) == ELe(u, m) /\ \A v \in DOMAIN u : m[v] > u[v] => nm[v] = 0
JDivs(U, m) == {i \in DOMAIN U : ELe(U[i], m) /\ \A v \in DOMAIN m : m[v] > U[i][v] => ~JNM(U, U[i], v)}
JFind(U, m) == LET D == JDivs(U, m) IN IF D = {} THEN 0 ELSE CHOOSE i \in D : TRUE
InIdeal(U, m) == \E i \in DOMAIN U : ELe(U[i], m)

(* every product by a nonmultiplicative variable has an involutive divisor:   *)
(* then the cones of the elements tile the whole ideal (local involutivity)   *)
JComplete(U) == \A i \in DOMAIN U : \A v \in 1..Len(U[i]) : JNM(U, U[i], v) => JDivs(U, EProl(U[i], v)) # {}

(* all exponent vectors of a box, in the order of the last variable fastest *)
RECURSIVE BoxSeq(_, _)
BoxSeq(n, b) == IF n = 0 THEN <<<<>>>> ELSE
  LET S == BoxSeq(n - 1, b) w == b + 1
  IN TLCEval([k \in 1..(Len(S) * w) |-> Append(S[((k - 1) \div w) + 1], (k - 1) % w)])

(* the monomials outside the ideal, degree by degree: each is a multiple of   *)
(* one outside of the degree before                                           *)
RECURSIVE OutsideUpTo(_, _, _, _)
OutsideUpTo(U, S, d, top) ==     \* number of monomials outside with degree d..top, S those of degree d
  IF d = top THEN <<Cardinality(S)>>
  ELSE LET n == Cardinality(S)
           T == TLCEval({EProl(m, v) : m \in S, v \in 1..(IF S = {} THEN 0 ELSE Len(CHOOSE x \in S : TRUE))})
       IN <<n>> \o OutsideUpTo(U, TLCEval({m \in T : ~InIdeal(U, m)}), d + 1, top)
Outside(U, n, top) == OutsideUpTo(U, TLCEval({m \in {EUnit(n)} : ~InIdeal(U, m)}), 0, top)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
RECURSIVE MaxDeg(_, _)
MaxDeg(U, k) == IF k = 0 THEN 0 ELSE LET r == MaxDeg(U, k - 1) d == EDeg(U[k]) IN IF d > r THEN d ELSE r
=============================================================================
