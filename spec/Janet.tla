-------------------------------- MODULE Janet --------------------------------
(* The Janet tree (GInv::Janet, C04) as what it implements: a set of elements  *)
(* under Janet division.  Inserting is allowed when the monomial has no Janet *)
(* divisor; looking up gives the divisor.                                      *)
EXTENDS Invol, Json
CONSTANTS N, Box, MaxElem
VARIABLES nv, els, act         \* number of variables, elements in order of insertion
vars == <<nv, els, act>>
Is(p) == TRUE = p

Insert(m) == els' = IF JDivs(els, m) = {} THEN Append(els, m) ELSE els
Keep == els' = els             \* copying, swapping, collecting and looking up change nothing
Flags(U) == TLCEval([k \in DOMAIN U |-> JNMs(U, U[k])])

Init == nv \in 1..N /\ els = <<>> /\ act = <<"begin", nv>>
Boxes == [1..nv -> 0..Box]
Next == /\ nv' = nv
        /\ \/ \E m \in Boxes : Len(els) < MaxElem /\ Insert(m) /\ act' = <<"ins", m>>
           \/ els # <<>> /\ Keep /\ act' \in {<<"copytree">>, <<"swaptree">>}
Spec == Init /\ [][Next]_vars
View == <<nv, els>>
Emit == PrintT(<<"EDGE", ToJson(<<nv, els>>), ToJson(act'), ToJson(<<nv', els'>>)>>)

(* ---------------------------------------------- properties of the division *)
Probes == [1..nv -> 0..(Box + 1)]
UniqueDivisor == \A m \in Probes : Cardinality(JDivs(els, m)) <= 1
DivisorIsDivisor == \A m \in Probes : \A i \in JDivs(els, m) : ELe(els[i], m)
OwnDivisor == \A i \in DOMAIN els : JDivs(els, els[i]) = {i}
(* the local condition is enough: a complete set divides its whole ideal *)
LocalInvolutivity == JComplete(els) => \A m \in Probes : InIdeal(els, m) => JDivs(els, m) # {}
(* nonmultiplicative variables only grow: an insertion never loses a flag *)
Monotone == [][\A i \in DOMAIN els : \A v \in 1..nv : JNM(els, els[i], v) => JNM(els', els[i], v)]_vars
=============================================================================
