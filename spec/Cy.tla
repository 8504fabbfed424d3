--------------------------------- MODULE Cy ---------------------------------
(* The Python binding (C21): names bound to polynomial objects, expressions  *)
(* that make new objects, and views (iterators, lm, lc) that must go on      *)
(* showing what they were taken from after every name of the object is gone. *)
(* An object changes only through the in-place calls reduction, pp and nf,   *)
(* which end the life of the views taken from it.                            *)
EXTENDS Poly
LOCAL INSTANCE BigInt
CONSTANT MaxViews
VARIABLES views                               \* sequence of <<owner, list of <<monomial, coefficient>> >>; owner 0: no register holds it
cyvars == <<vars, views>>

Sorted(f) == LET D == DOMAIN f IN
             TLCEval([i \in 1..Cardinality(D) |-> LET m == CHOOSE x \in D : Cardinality({y \in D : OrdCmp(ord, y, x) > 0}) = i - 1 IN <<m, f[m]>>])
(* rebinding a name leaves the old object to its views *)
Orphan(d) == views' = [i \in 1..Len(views) |-> IF views[i][1] = d THEN <<0, views[i][2]>> ELSE views[i]]
RECURSIVE Without(_, _, _)
Without(vs, d, k) == IF k > Len(vs) THEN <<>> ELSE (IF vs[k][1] = d THEN <<>> ELSE <<vs[k]>>) \o Without(vs, d, k + 1)
InPlace(d) == views' = Without(views, d, 1)

(* integers on the left *)
RSubC(d, c) == Put(d, PSub(PConst(nv, c), regs[d]))
Take(a) == /\ Reg(a) /\ views' = Append(views, <<a, Sorted(regs[a])>>) /\ UNCHANGED vars
(* views of the value of an expression that no name is ever bound to *)
TakeOf(ts) == views' = Append(views, <<0, Sorted(ts)>>) /\ UNCHANGED vars
Drop == views # <<>> /\ views' = Tail(views) /\ UNCHANGED vars
Shown == [i \in 1..Len(views) |-> views[i][2]]

(* ------------------------------------------------- exhaustive configuration *)
CyInit == Init /\ views = <<>>
CyNext ==
  \/ \E d \in Rs, m \in SmallMonos(nv) : MonoP(d, m) /\ Orphan(d) /\ act' = <<"mono", d, m>>
  \/ \E d \in Rs, c \in Cs : /\ Orphan(d)
                             /\ \/ AddC(d, c) /\ act' = <<"addc", d, c>>
                                \/ AddC(d, c) /\ act' = <<"raddc", d, c>>
                                \/ SubC(d, c) /\ act' = <<"subc", d, c>>
                                \/ RSubC(d, c) /\ act' = <<"rsubc", d, c>>
                                \/ MultC(d, c) /\ act' = <<"multc", d, c>>
                                \/ MultC(d, c) /\ act' = <<"rmultc", d, c>>
  \/ \E d, a, b \in Rs : /\ Orphan(d)
                         /\ \/ AddP(d, a, b) /\ act' = <<"opadd", d, a, b>>
                            \/ SubP(d, a, b) /\ act' = <<"opsub", d, a, b>>
                            \/ MultP(d, a, b) /\ act' = <<"opmult", d, a, b>>
  \/ \E d, a \in Rs : Put(d, PNeg(regs[a])) /\ Orphan(d) /\ act' = <<"opneg", d, a>>
  \/ \E d \in Rs, x \in 0..2 : PowP(d, x) /\ Orphan(d) /\ act' = <<"pow", d, x>>
  \/ \E a \in Rs : Take(a) /\ act' = <<"take", a>>
  \/ \E a, b \in Rs : TakeOf(PAdd(regs[a], regs[b])) /\ act' = <<"takesum", a, b>>
  \/ Drop /\ act' = <<"drop">>
CySpec == CyInit /\ [][CyNext]_cyvars
CyView == <<nv, ord, regs, views>>
CyBound == Bound /\ Len(views) <= MaxViews
CyEmit == PrintT(<<"EDGE", ToJson(<<nv, ord, [k \in Rs |-> Lst(regs[k])], views>>), ToJson(act'), ToJson(<<nv', ord', [k \in Rs |-> Lst(regs'[k])], views'>>)>>)
(* a view of a register that still holds the object shows the value of the register *)
ViewsAgree == \A i \in 1..Len(views) : views[i][1] # 0 => views[i][2] = Sorted(regs[views[i][1]])
(* no call changes what a view shows *)
ViewsKeep == [][\A i \in 1..Len(views) : (\E j \in 1..Len(views') : views'[j][2] = views[i][2]) \/ act'[1] = "drop"]_cyvars
=============================================================================
