------------------------------- MODULE PyJanet ------------------------------
(* The Janet trees and forests of the pure Python package (C24) as what they   *)
(* implement: sets of elements under Janet division, component by component.   *)
(* An element is [p, m, anc, prol]: component (-1 the ring), exponents,        *)
(* ancestor and the variables it has been prolonged by.  Inserting an element  *)
(* gives back those it replaces: the ones that agree with it before its last   *)
(* variable and have at least its exponent there.                              *)
EXTENDS InvolHp, Json
LOCAL INSTANCE Functions
M == INSTANCE Mono
CONSTANTS N, Box, MaxElem
VARIABLES nv, ord, comps, els, pool, act
vars == <<nv, ord, comps, els, pool, act>>
Is(b) == TRUE = b

Full(x) == <<x.p>> \o x.m
In(S, p) == SelectSeq(S, LAMBDA x : x.p = p)
Exps(S) == TLCEval([k \in DOMAIN S |-> S[k].m])
Zeros == TLCEval([v \in 1..nv |-> 0])
El(p, m, anc) == [p |-> p, m |-> m, anc |-> anc, prol |-> Zeros]
LastVar(m) == LET S == {v \in DOMAIN m : m[v] > 0} IN IF S = {} THEN 1 ELSE CHOOSE v \in S : \A w \in S : w <= v
Replaces(x, y) == /\ x.p = y.p /\ LET l == LastVar(x.m) IN SamePrefix(x.m, y.m, l) /\ y.m[l] >= x.m[l]
HasDiv(S, p, m) == JDivs(Exps(In(S, p)), m) # {}
Flags(S, x) == JNMs(Exps(In(S, x.p)), x.m)
DivOf(S, p, m) == LET T == In(S, p)  D == JDivs(Exps(T), m) IN IF D = {} THEN <<>> ELSE <<T[CHOOSE k \in D : TRUE]>>

Put1(S, x) == Append(SelectSeq(S, LAMBDA y : ~Replaces(x, y)), x)
Out1(S, x) == SelectSeq(S, LAMBDA y : Replaces(x, y))
RECURSIVE PutAll(_, _, _)
PutAll(S, xs, k) == IF k > Len(xs) THEN S ELSE PutAll(Put1(S, xs[k]), xs, k + 1)
RECURSIVE OutAll(_, _, _)
OutAll(S, xs, k) == IF k > Len(xs) THEN <<>> ELSE Out1(S, xs[k]) \o OutAll(Put1(S, xs[k]), xs, k + 1)
RECURSIVE Allowed(_, _, _)
Allowed(S, xs, k) == k > Len(xs) \/ (~HasDiv(S, xs[k].p, xs[k].m) /\ Allowed(Put1(S, xs[k]), xs, k + 1))
Insert(xs) == Is(Allowed(els, xs, 1)) /\ els' = PutAll(els, xs, 1)

(* the prolongations that are due; making them marks them done *)
Due(x, v) == Flags(els, x)[v] = 1 /\ x.prol[v] = 0
Chosen(how, x, v) == CASE how[1] = "all" -> TRUE [] how[1] = "deg" -> how[2] = 0 \/ EDeg(x.m) = how[2]
                       [] how[1] = "mon" -> M!OrdCmp(ord, <<x.p>> \o EProl(x.m, v), how[2]) <= 0
DueSet(how) == TLCEval({d \in {<<k, v>> : k \in DOMAIN els, v \in 1..nv} : Due(els[d[1]], d[2]) /\ Chosen(how, els[d[1]], d[2])})
Child(x, v) == El(x.p, EProl(x.m, v), x.anc)
Mark(S, D) == TLCEval([k \in DOMAIN S |-> [S[k] EXCEPT !.prol = [v \in 1..nv |-> IF <<k, v>> \in D THEN 1 ELSE S[k].prol[v]]]])
Prolong(how) == LET D == DueSet(how) IN els' = Mark(els, D)
Children(how) == {Child(els[d[1]], d[2]) : d \in DueSet(how)}
MinDeg == LET S == {EDeg(els[d[1]].m) : d \in DueSet(<<"all">>)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
GB == {Full(els[k]) : k \in {j \in DOMAIN els : els[j].anc = els[j].m}}

(* Hilbert polynomial of the components p, ...: all monomials less the cones *)
RECURSIVE HpOver(_)
HpOver(P) == IF P = {} THEN HP!HZero(nv)
             ELSE LET p == CHOOSE x \in P : TRUE IN HP!HAdd(HpOf(Exps(In(els, p)), nv), HpOver(P \ {p}))
Comps == IF comps = 0 THEN {-1} ELSE 0..(comps - 1)

(* ------------------------------------------------- exhaustive configuration *)
Init == nv \in 1..N /\ ord = 18 /\ comps = 0 /\ els = <<>> /\ pool = {} /\ act = <<"begin", nv>>
Boxes == [1..nv -> 0..Box]
Next == /\ UNCHANGED <<nv, ord, comps>>
        /\ \/ \E m \in Boxes : Len(els) < MaxElem /\ Insert(<<El(-1, m, m)>>) /\ pool' = pool /\ act' = <<"ins", m>>
           \/ \E x \in pool : Len(els) < MaxElem /\ Insert(<<x>>) /\ pool' = pool \ {x} /\ act' = <<"insq", x.m, x.anc>>
           \/ Prolong(<<"all">>) /\ pool' = pool \cup Children(<<"all">>) /\ act' = <<"pall">>
Spec == Init /\ [][Next]_vars
View == <<nv, els, pool>>
Bound == \A x \in pool : \A v \in 1..nv : x.m[v] <= Box
Emit == PrintT(<<"EDGE", ToJson(<<nv, els, pool>>), ToJson(act'), ToJson(<<nv', els', pool'>>)>>)

Probes == [1..nv -> 0..(Box + 1)]
UniqueDivisor == \A m \in Probes : Cardinality(JDivs(Exps(els), m)) <= 1
OwnDivisor == \A k \in DOMAIN els : JDivs(Exps(els), els[k].m) = {k}
(* what is replaced stays covered: by the element that replaced it *)
Covered == [][\A k \in DOMAIN els : els[k].m \notin {els'[j].m : j \in DOMAIN els'} => HasDiv(els', -1, els[k].m)]_vars
(* the tree shape: the last variable of an element is multiplicative, with those behind it *)
TailMultiplicative == \A k \in DOMAIN els : \A v \in LastVar(els[k].m)..nv : Flags(els, els[k])[v] = 0
LocalInvolutivity == JComplete(Exps(els)) => \A m \in Probes : InIdeal(Exps(els), m) => JDivs(Exps(els), m) # {}
AncestorDivides == \A k \in DOMAIN els : ELe(els[k].anc, els[k].m)
=============================================================================
