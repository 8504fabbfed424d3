----------------------------- MODULE HilbertCount ----------------------------
(* The cone formula for the Hilbert polynomial counts (C03): over every set of *)
(* at most MaxElem monomials of a box, its value at s is the number of         *)
(* monomials of degree at most s without a Janet divisor, and for complete     *)
(* sets the number outside the ideal.                                          *)
EXTENDS InvolHp
CONSTANTS N, Box, MaxElem
VARIABLE U
Init == U = <<>>
Next == \E m \in [1..N -> 0..Box] : Len(U) < MaxElem /\ JDivs(U, m) = {} /\ U' = Append(U, m)
Spec == Init /\ [][Next]_U
View == {U[k] : k \in DOMAIN U}
RECURSIVE Upto(_, _)
Upto(n, s) == TLCEval({m \in [1..n -> 0..s] : EDeg(m) <= s})
D == MaxDeg(U, Len(U))
ConesCount == U # <<>> => \A s \in {D, D + 2} :
    HP!HEval(HpOf(U, N), s) = HP!RInt(Cardinality({m \in Upto(N, s) : JDivs(U, m) = {}}))
IdealCount == (U # <<>> /\ JComplete(U)) => CountOk(U, D, N, HpOf(U, N))
OutsideRight == U # <<>> => SumTo(Outside(U, N, D), D + 1) = Cardinality({m \in Upto(N, D) : ~InIdeal(U, m)})
=============================================================================
