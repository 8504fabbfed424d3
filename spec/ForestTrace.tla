----------------------------- MODULE ForestTrace ----------------------------
EXTENDS Forest, TraceLib
LOCAL INSTANCE Text
LOCAL INSTANCE Pict
VARIABLE bld                     \* the variables by which each element has been prolonged
tvars == <<vars, bld>>
Obs == /\ Len(ev.ws) = Len(els') /\ ev.size = Len(els')
       /\ Is(\A k \in DOMAIN els' : LET w == ev.ws[k] x == els'[k] IN
              /\ Tail(w[1]) = x.lm /\ w[2] = TNMs(els', k) /\ w[3] = x.nmd /\ Tail(w[4]) = x.anc /\ w[5] = WrapText(w[1], w[4], w[2])
              /\ w[6] = (x.anc = x.lm) /\ w[7] = Cardinality({v \in DOMAIN w[2] : w[2][v] = 0}))
Grown(b) == b \o [k \in 1..(Len(els') - Len(els)) |-> {}]
TBegin == IsEvent("begin") /\ nv' = ev.n /\ els' = <<>> /\ bld' = <<>> /\ act' = act /\ Obs
TIns == /\ IsEvent("ins") /\ ev.found = FFind(els, ev.e) /\ Insert(ev.e) /\ bld' = Grown(bld) /\ nv' = nv /\ act' = act /\ Obs
TProl == /\ IsEvent("prol") /\ nv' = nv /\ act' = act
         /\ IF ev.did THEN /\ CanProl(ev.k, ev.v + 1) /\ ev.found = FFind(els, EProl(els[ev.k].lm, ev.v + 1))
                           /\ Prolong(ev.k, ev.v + 1)
                           /\ ev.v + 1 \notin bld[ev.k] /\ bld' = Grown([bld EXCEPT ![ev.k] = @ \cup {ev.v + 1}])
            ELSE els' = els /\ bld' = bld /\ Is(CanProl(ev.k, ev.v + 1) => ev.v + 1 \in bld[ev.k])
         /\ Obs
TFind == IsEvent("find") /\ ev.found = FFind(els, ev.e) /\ UNCHANGED tvars /\ Obs
TBox == /\ IsEvent("findbox") /\ UNCHANGED tvars
        /\ LET S == BoxSeq(nv, ev.b) IN Len(ev.found) = Len(S) /\ Is(\A k \in DOMAIN S : ev.found[k] = FFind(els, S[k]))
(* a picture (C28) shows every tree of the forest as it is, and drawing changes nothing *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Bits(S) == [v \in 1..nv |-> IF v \in S THEN 1 ELSE 0]
TPict == /\ IsEvent("pict") /\ UNCHANGED tvars /\ ev.ok
         /\ LET lms == [k \in DOMAIN els |-> els[k].lm]
                tab == [k \in DOMAIN els |-> <<Degrees(els[k].lm, els[k].anc = els[k].lm), Marks(TNMs(els, k), "*"), Marks(els[k].nmd, "#"), Marks(Bits(bld[k]), "&amp;")>>]
                L == {Level(els[k]) : k \in DOMAIN els}
                c == TLCEval([d \in L |-> ChainFrom(lms, tab, Idx(els, d), 1)])
                n == SumOf([d \in L |-> NodesIn(c[d])], L) IN
            /\ Same(ev.trees, {c[d] : d \in L})
            /\ ev.nodes = n + 1 /\ ev.edges = n - Cardinality(L) /\ ev.heads = <<<<"#GB = " \o ToString(Len(els))>>>>
         /\ Obs
TEnd == IsEvent("end") /\ ev.live = 0 /\ els' = <<>> /\ bld' = <<>> /\ nv' = nv /\ act' = act
TraceInit == tick = 1 /\ nv = 1 /\ els = <<>> /\ bld = <<>> /\ act = <<>>
TraceNext == TBegin \/ TIns \/ TProl \/ TFind \/ TBox \/ TPict \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tick>>
=============================================================================
