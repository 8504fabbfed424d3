------------------------------- MODULE InvolHp -------------------------------
(* Hilbert polynomials of sets of monomials: by the cones of an involutive set *)
(* and by counting.                                                            *)
EXTENDS Invol
HP == INSTANCE HilbertPoly WITH Dim <- 0, Box <- 0, hp <- <<>>, act <- <<>>
(* the Hilbert polynomial: all monomials less the cones of the elements *)
RECURSIVE HpFrom(_, _, _)
HpFrom(U, n, k) == IF k = 0 THEN HP!HBin(n, n, n)
                   ELSE LET f == JNMs(U, U[k])  mu == Cardinality({v \in 1..n : f[v] = 0})
                        IN HP!HSub(HpFrom(U, n, k - 1), HP!HBin(n, mu - EDeg(U[k]), mu))
HpOf(U, n) == HpFrom(U, n, Len(U))
CountOk(U, D, n, hp) ==     \* agrees with counting at the n + 1 degrees from D: equal as polynomials
  LET c == Outside(U, n, D + n)
  IN \A s \in D..(D + n) : HP!HEval(hp, s) = HP!RInt(SumTo(c, s + 1))
RECURSIVE CountBox(_, _)       \* number of monomials of degree <= d in n variables, capped
CountBox(n, d) == IF n = 0 \/ d = 0 THEN 1 ELSE LET a == CountBox(n - 1, d) IN IF a > 4000 THEN a ELSE LET b == CountBox(n, d - 1) IN IF b > 4000 THEN b ELSE a + b
Small(D, n) == n <= 5 /\ D <= 200 /\ CountBox(n, D + n) <= 2000
=============================================================================
