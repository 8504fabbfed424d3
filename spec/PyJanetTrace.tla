---------------------------- MODULE PyJanetTrace -----------------------------
(* Logs of the Janet trees and forests of the pure Python package: after every  *)
(* call all elements with flags, ancestors and prolongations.                    *)
EXTENDS PyJanet, TraceLib

Rec(S, x) == <<Full(x), Flags(S, x), x.anc, x.prol>>
AsSet(s) == {s[k] : k \in DOMAIN s}
Obs == Is(/\ Len(ev.ws) = Len(els') /\ ev.count = Len(els')
          /\ AsSet(ev.ws) = {Rec(els', els'[k]) : k \in DOMAIN els'}
          /\ AsSet(ev.multi) = {<<Full(els'[k]), Cardinality({v \in 1..nv : Flags(els', els'[k])[v] = 0})>> : k \in DOMAIN els'}
          /\ Len(ev.gb) = Cardinality({k \in DOMAIN els' : els'[k].anc = els'[k].m})
          /\ AsSet(ev.gb) = {Full(els'[k]) : k \in {j \in DOMAIN els' : els'[j].anc = els'[j].m}})
Same == UNCHANGED <<nv, ord, comps, act>>
New(w) == El(w[1][1], Tail(w[1]), w[2])             \* <<monomial, ancestor>>
PBegin == IsEvent("begin") /\ nv' = ev.n /\ ord' = ev.order /\ comps' = ev.K /\ els' = <<>> /\ pool' = {} /\ act' = act
(* offered one by one: inserted when there is no divisor *)
PIns == /\ IsEvent("ins") /\ Same /\ pool' = pool
        /\ LET x == New(ev.w) IN
           /\ Is(ev.done = ~HasDiv(els, x.p, x.m))
           /\ IF ev.done THEN Insert(<<x>>) ELSE els' = els
           /\ Is({ev.out[k] : k \in DOMAIN ev.out} = (IF ev.done THEN {Full(y) : y \in AsSet(Out1(els, x))} ELSE {}))
        /\ Obs
PInsn == /\ IsEvent("insn") /\ Same /\ pool' = pool
         /\ LET xs == TLCEval([k \in DOMAIN ev.w |-> New(ev.w[k])]) IN
            /\ Insert(xs)
            /\ Is({ev.out[k] : k \in DOMAIN ev.out} = {Full(y) : y \in AsSet(OutAll(els, xs, 1))})
            /\ Is(Len(ev.out) = Len(OutAll(els, xs, 1)))
         /\ Obs
PProl == /\ IsEvent("prol") /\ Same /\ Prolong(ev.how)
         /\ pool' = {<<Full(c), c.anc>> : c \in Children(ev.how)}
         /\ Is(AsSet(ev.got) = pool' /\ Len(ev.got) = Cardinality(DueSet(ev.how)))
         /\ Is(\A k \in DOMAIN ev.flags : ev.flags[k] = <<Zeros, Zeros>>)
         /\ Obs
PMin == /\ IsEvent("mindeg") /\ UNCHANGED vars /\ Is(ev.deg = MinDeg)
FoundIs(p, m, got) == LET d == DivOf(els, p, m) IN IF d = <<>> THEN got = <<>> ELSE got = Full(d[1])
PFind == /\ IsEvent("find") /\ UNCHANGED vars
         /\ Is(FoundIs(ev.m[1], Tail(ev.m), ev.found))
         /\ Is(IF ev.found = <<>> THEN ev.g = <<>> ELSE ev.g = (IF ev.kind = "cache" THEN ev.m ELSE ev.found))
PBox == /\ IsEvent("findbox") /\ UNCHANGED vars
        /\ LET S == BoxSeq(nv, ev.b) IN Len(ev.found) = Len(S) /\ Is(\A k \in DOMAIN S : FoundIs(ev.p, S[k], ev.found[k]))
(* verge: only the components before it count, the greatest is the first *)
PHp == /\ IsEvent("hp") /\ UNCHANGED vars
       /\ Is(LET P == IF ev.verge = -1 THEN Comps ELSE {c \in Comps : comps - 1 - c < ev.verge}
                 T == MaxDeg(Exps(els), Len(els)) IN
             /\ ev.hp = HpOver(P)
             /\ (Small(T, nv) /\ Cardinality(P) = 1 /\ JComplete(Exps(In(els, CHOOSE p \in P : TRUE)))) =>
                  CountOk(Exps(In(els, CHOOSE p \in P : TRUE)), T, nv, ev.hp))
(* monomials of degree s - d in n variables, as a polynomial in s *)
PComb == IsEvent("comb") /\ UNCHANGED vars /\ Is(ev.got = HP!HBin(ev.n - 1, ev.n - 1 - ev.deg, ev.n - 1))
PEnd == IsEvent("end") /\ els' = <<>> /\ pool' = {} /\ Same
TraceInit == tick = 1 /\ nv = 1 /\ ord = 18 /\ comps = 0 /\ els = <<>> /\ pool = {} /\ act = <<>>
TraceNext == PBegin \/ PIns \/ PInsn \/ PProl \/ PMin \/ PFind \/ PBox \/ PHp \/ PComb \/ PEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
