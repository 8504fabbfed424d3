------------------------------- MODULE Orders -------------------------------
(* C09 on the definitions themselves: every triple of monomials of a box is  *)
(* one state; the laws every comparison must satisfy are invariants.          *)
EXTENDS Mono
CONSTANTS MaxVar, MaxExp, MaxPos
VARIABLES n, x, y, z
PosSet == {-1} \cup 1..MaxPos
Box(k) == {<<p>> \o e : p \in PosSet, e \in [1..k -> 0..MaxExp]}
Init == n \in 1..MaxVar /\ x \in Box(n) /\ y \in Box(n) /\ z \in Box(n)
Next == UNCHANGED <<n, x, y, z>>
Spec == Init /\ [][Next]_<<n, x, y, z>>
Codes == {17, 18, 20, 24, 33, 34, 36, 40}   \* TOP/POT times lex, degrevlex, antigraded, gradlex
Antisymmetric == \A o \in Codes : OrdCmp(o, x, y) = -OrdCmp(o, y, x)
EqualIffSame == \A o \in Codes : (OrdCmp(o, x, y) = 0) = (x = y)
Transitive == \A o \in Codes : (OrdCmp(o, x, y) > 0 /\ OrdCmp(o, y, z) > 0) => OrdCmp(o, x, z) > 0
Multiplicative == \A o \in Codes : Pos(z) = -1 => OrdCmp(o, MMul(x, z), MMul(y, z)) = OrdCmp(o, x, y)
WellOrder == \A o \in Codes \ {20, 36} : (Pos(x) = Pos(y) /\ ExpsLe(x, y)) => OrdCmp(o, x, y) <= 0
Graded == \A o \in {18, 24} : Deg(x) > Deg(y) => OrdCmp(o, x, y) > 0
AntiGraded == Deg(x) > Deg(y) => OrdCmp(20, x, y) < 0
PosFirst == \A o \in {33, 34, 36, 40} : Pos(x) > Pos(y) => OrdCmp(o, x, y) > 0
=============================================================================
