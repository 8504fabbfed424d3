-------------------------------- MODULE Forest -------------------------------
(* The forest of Janet trees (GInv::GB, C10): one tree per degree of the       *)
(* ancestor.  An element keeps the nonmultiplicative variables of Janet        *)
(* division in its own tree, and those that the trees of lower degree forced   *)
(* on it when it was inserted.                                                 *)
EXTENDS Invol, Json
CONSTANTS N, Box, MaxElem
VARIABLES nv, els, act           \* els: sequence of [lm, anc, nmd]
vars == <<nv, els, act>>
Is(p) == TRUE = p

Level(x) == EDeg(x.anc)
(* the tree of degree d, as a sequence of the monomials in order of insertion *)
Idx(E, d) == {k \in DOMAIN E : Level(E[k]) = d}
TNM(E, k, v) == \E j \in DOMAIN E : Level(E[j]) = Level(E[k]) /\ E[j].lm[v] > E[k].lm[v] /\ SamePrefix(E[j].lm, E[k].lm, v)
TNMs(E, k) == TLCEval([v \in 1..Len(E[k].lm) |-> IF TNM(E, k, v) THEN 1 ELSE 0])
TreeDivs(E, d, m) == {k \in Idx(E, d) : ELe(E[k].lm, m) /\ \A v \in DOMAIN m : m[v] > E[k].lm[v] => ~TNM(E, k, v)}
Qualifies(E, k, m) == \A v \in DOMAIN m : m[v] > E[k].lm[v] => E[k].nmd[v] = 0
(* candidates: the divisor of each tree that no lower tree forbids *)
Cands(E, m) == TLCEval({k \in DOMAIN E : ELe(E[k].lm, m) /\ Qualifies(E, k, m) /\ k \in TreeDivs(E, Level(E[k]), m)})
(* the one of the lowest tree answers *)
FFind(E, m) == LET C == Cands(E, m) IN IF C = {} THEN 0 ELSE CHOOSE k \in C : \A j \in C : Level(E[k]) <= Level(E[j])

FirstExceeds(x, m, v) == x[v] > m[v] /\ \A k \in 1..(v - 1) : x[k] <= m[k]
NmdOf(E, m, d) == TLCEval([v \in 1..Len(m) |-> IF \E j \in DOMAIN E : Level(E[j]) < d /\ FirstExceeds(E[j].lm, m, v) THEN 1 ELSE 0])
Add(E, m, anc) == Append(E, [lm |-> m, anc |-> anc, nmd |-> NmdOf(E, m, EDeg(anc))])
Insert(m) == els' = IF FFind(els, m) = 0 THEN Add(els, m, m) ELSE els
(* a product by a nonmultiplicative variable keeps the ancestor *)
CanProl(k, v) == k \in DOMAIN els /\ (TNM(els, k, v) \/ els[k].nmd[v] = 1)
Prolong(k, v) == LET m == EProl(els[k].lm, v) IN els' = IF FFind(els, m) = 0 THEN Add(els, m, els[k].anc) ELSE els

Init == nv \in 1..N /\ els = <<>> /\ act = <<"begin", nv>>
Next == /\ nv' = nv
        /\ \/ \E m \in [1..nv -> 0..Box] : Len(els) < MaxElem /\ Insert(m) /\ act' = <<"ins", m>>
           \/ \E k \in DOMAIN els, v \in 1..nv : Len(els) < MaxElem /\ CanProl(k, v) /\ Prolong(k, v) /\ act' = <<"prol", k, v>>
Spec == Init /\ [][Next]_vars
View == <<nv, els>>
Emit == PrintT(<<"EDGE", ToJson(<<nv, els>>), ToJson(act'), ToJson(<<nv', els'>>)>>)

Probes == [1..nv -> 0..(Box + 1)]
OnePerTree == \A m \in Probes : \A k, j \in Cands(els, m) : Level(els[k]) = Level(els[j]) => k = j
Distinct == \A k, j \in DOMAIN els : els[k].lm = els[j].lm => k = j
Keeps == \A k \in DOMAIN els : FFind(els, els[k].lm) # 0
Answer == \A m \in Probes : LET k == FFind(els, m) IN k # 0 => ELe(els[k].lm, m)
=============================================================================
