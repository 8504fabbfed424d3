----------------------------- MODULE JanetTrace -----------------------------
(* Logs of Janet trees: every insertion, lookup, copy and swap, with the      *)
(* flags of every element, and the Hilbert polynomials (C03, C04).            *)
EXTENDS Janet, InvolHp, TraceLib
LOCAL INSTANCE Text
LOCAL INSTANCE Pict

Obs == /\ Len(ev.ws) = Len(els') /\ ev.size = Len(els')
       /\ ev.reach = [k \in 1..Len(els') |-> k]
       /\ Is(\A k \in DOMAIN els' : LET f == JNMs(els', els'[k]) IN
            /\ Tail(ev.ws[k][1]) = els'[k] /\ ev.ws[k][2] = f /\ ev.ws[k][3] = WrapText(ev.ws[k][1], ev.ws[k][1], f)
            /\ ev.multi[k] = Cardinality({v \in DOMAIN f : f[v] = 0}))
TBegin == IsEvent("begin") /\ nv' = ev.n /\ els' = <<>> /\ act' = act /\ Obs
TIns == /\ IsEvent("ins") /\ Len(ev.e) = nv /\ ev.found = JFind(els, ev.e) /\ Insert(ev.e)
        /\ nv' = nv /\ act' = act /\ Obs
TFind == IsEvent("find") /\ ev.found = JFind(els, ev.e) /\ UNCHANGED vars
TBox == /\ IsEvent("findbox") /\ UNCHANGED vars
        /\ LET S == BoxSeq(nv, ev.b) IN Len(ev.found) = Len(S) /\ Is(\A k \in DOMAIN S : ev.found[k] = JFind(els, S[k]))
TKeep == /\ tick <= Len(Trace) /\ ev.op \in {"copytree", "swaptree"} /\ tick' = tick + 1
         /\ Keep /\ nv' = nv /\ act' = act /\ Obs
THp == /\ IsEvent("hp") /\ UNCHANGED <<nv, els, act>> /\ els # <<>>
       /\ Is(ev.hp = HpOf(els, nv))
       /\ Is((Small(MaxDeg(els, Len(els)), nv) /\ JComplete(els)) => CountOk(els, MaxDeg(els, Len(els)), nv, ev.hp))
       /\ Obs
(* a picture (C28) shows the tree as it is, and drawing changes nothing *)
TPict == /\ IsEvent("pict") /\ UNCHANGED <<nv, els, act>> /\ ev.ok
         /\ LET tab == [k \in DOMAIN els |-> <<Degrees(els[k], TRUE), Marks(JNMs(els, els[k]), "*"), [v \in 1..nv |-> ""]>>]
                c == ChainFrom(els, tab, DOMAIN els, 1) IN
            /\ ev.trees = (IF els = <<>> THEN <<>> ELSE <<c>>)
            /\ ev.nodes = NodesIn(c) + 1 /\ ev.edges = (IF c = <<>> THEN 0 ELSE NodesIn(c) - 1)
            /\ Len(ev.heads) = 1 /\ ev.heads[1][1] = "#Janet = " \o ToString(Len(els))
         /\ Obs
TEnd == IsEvent("end") /\ (Has("live") => ev.live = 0) /\ els' = <<>> /\ nv' = nv /\ act' = act
TraceInit == tick = 1 /\ nv = 1 /\ els = <<>> /\ act = <<>>
TraceNext == TBegin \/ TIns \/ TFind \/ TBox \/ TKeep \/ THp \/ TPict \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
