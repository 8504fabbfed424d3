-------------------------------- MODULE Mono --------------------------------
(* Monomials of a free module over the polynomial ring: <<pos, e1, ..., en>>. *)
(* pos = -1 is the ring itself (or the extra component of a module).          *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC                         \* TLCEval: compute the value now, not at every use

(* a condition: evaluated as a value, so that TLC does not branch on its disjunctions *)
Is(p) == TRUE = p

Pos(m)  == m[1]
NV(m)   == Len(m) - 1
E(m, v) == m[v + 1]
Exps(m) == Tail(m)

RECURSIVE SumFrom(_, _)
SumFrom(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + SumFrom(m, i + 1)
Deg(m) == SumFrom(m, 2)

Unit(n, pos) == TLCEval(<<pos>> \o [i \in 1..n |-> 0])
VarM(n, v, pos) == TLCEval(<<pos>> \o [i \in 1..n |-> IF i = v THEN 1 ELSE 0])

(* the component of a product: at most one factor is outside the ring *)
ProdPos(a, b) == IF Pos(a) = -1 THEN Pos(b) ELSE Pos(a)
CanMul(a, b)  == Pos(a) = -1 \/ Pos(b) = -1
MMul(a, b) == TLCEval([i \in 1..Len(a) |-> IF i = 1 THEN ProdPos(a, b) ELSE a[i] + b[i]])
MPow(a, k) == TLCEval([i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE a[i] * k])
MProl(v, a) == TLCEval([a EXCEPT ![v + 1] = @ + 1])
MSetPos(a, p) == [a EXCEPT ![1] = p]

ExpsLe(a, b) == \A i \in 2..Len(a) : a[i] <= b[i]
(* a divides b: ring monomials divide in every component *)
MDivides(a, b) == (Pos(a) = -1 \/ Pos(a) = Pos(b)) /\ ExpsLe(a, b)
(* quotient of b by a divisor a: within one component it is a ring monomial *)
MQuo(b, a) == TLCEval([i \in 1..Len(b) |-> IF i = 1 THEN (IF Pos(a) = Pos(b) THEN -1 ELSE Pos(b)) ELSE b[i] - a[i]])
(* divides as members of the same component of the module *)
SameDivides(a, b) == Pos(a) = Pos(b) /\ ExpsLe(a, b)

MGcdE(a, b) == TLCEval([i \in 1..Len(a) |-> IF i = 1 THEN -1 ELSE IF a[i] < b[i] THEN a[i] ELSE b[i]])
MLcmE(a, b) == TLCEval([i \in 1..Len(a) |-> IF i = 1 THEN -1 ELSE IF a[i] > b[i] THEN a[i] ELSE b[i]])

(* ------------------------------------------------------------------ orders *)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE FirstDiff(_, _, _)               \* first variable that differs decides
FirstDiff(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] # b[i] THEN Sign(a[i] - b[i]) ELSE FirstDiff(a, b, i + 1)
RECURSIVE LastDiff(_, _, _)
LastDiff(a, b, i) == IF i < 2 THEN 0 ELSE IF a[i] # b[i] THEN Sign(a[i] - b[i]) ELSE LastDiff(a, b, i - 1)

Lex(a, b) == FirstDiff(a, b, 2)
(* "deglex" of the library is the degree reverse lexicographic order *)
DegLex(a, b) == LET d == Deg(a) - Deg(b) IN IF d # 0 THEN Sign(d) ELSE -LastDiff(a, b, Len(a))
(* antigraded: the monomial of lower degree is larger *)
ALex(a, b) == LET d == Deg(a) - Deg(b) IN IF d # 0 THEN -Sign(d) ELSE FirstDiff(a, b, 2)
(* pyginv's deglex: degree, then lexicographic *)
DegLexTrue(a, b) == LET d == Deg(a) - Deg(b) IN IF d # 0 THEN Sign(d) ELSE FirstDiff(a, b, 2)

BaseCmp(base, a, b) == CASE base = "lex" -> Lex(a, b) [] base = "deglex" -> DegLex(a, b)
                         [] base = "alex" -> ALex(a, b) [] base = "gradlex" -> DegLexTrue(a, b)
(* module orders: term over position or position over term; larger pos is larger *)
TopCmp(base, a, b) == LET r == BaseCmp(base, a, b) IN IF r # 0 THEN r ELSE Sign(Pos(a) - Pos(b))
PotCmp(base, a, b) == LET r == Sign(Pos(a) - Pos(b)) IN IF r # 0 THEN r ELSE BaseCmp(base, a, b)

(* the library's order codes: 0x10 TOP, 0x20 POT; 1 lex, 2 deglex, 4 alex *)
BaseOf(ord) == CASE ord % 16 = 1 -> "lex" [] ord % 16 = 2 -> "deglex" [] ord % 16 = 4 -> "alex" [] ord % 16 = 8 -> "gradlex"
IsPot(ord) == ord \div 16 = 2
OrdCmp(ord, a, b) == IF IsPot(ord) THEN PotCmp(BaseOf(ord), a, b) ELSE TopCmp(BaseOf(ord), a, b)
=============================================================================
