-------------------------------- MODULE Perm --------------------------------
(* GInv::RandPermutation (C18): a shuffle is n-1 exchanges, each with a        *)
(* uniformly drawn index.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N
VARIABLES perm, at, drawn
vars == <<perm, at, drawn>>
Is(p) == p = TRUE
Ident(n) == [j \in 1..n |-> j - 1]
IsPerm(p, n) == Len(p) = n /\ {p[j] : j \in 1..n} = 0..(n - 1)
Exch(p, x, y) == [p EXCEPT ![x + 1] = p[y + 1], ![y + 1] = p[x + 1]]
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Shuffle(_, _, _)                     \* the drawn indices for positions n-1 .. 1
Shuffle(p, ds, x) == IF x = 0 THEN p ELSE Shuffle(Exch(p, ds[x], x), ds, x - 1)
Init == perm = Ident(N) /\ at = N - 1 /\ drawn = <<>>
Next == \/ at > 0 /\ \E j \in 0..at : perm' = Exch(perm, j, at) /\ at' = at - 1 /\ drawn' = Append(drawn, j)
        \/ at = 0 /\ perm = Ident(N) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
AlwaysPerm == IsPerm(perm, N)
(* uniform: the draws of a shuffle and its outcomes are in bijection *)
Choices == {c \in [1..(N - 1) -> 0..(N - 1)] : \A x \in 1..(N - 1) : c[x] <= x}
Bijection == Init => /\ Cardinality(Choices) = Fact(N)
                     /\ Cardinality({Shuffle(perm, c, N - 1) : c \in Choices}) = Fact(N)
=============================================================================
