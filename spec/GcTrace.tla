------------------------------- MODULE GcTrace -------------------------------
EXTENDS Gc, TraceLib
Reg(k, tight) == IF ev.st[k] = <<>> THEN None
                 ELSE LET s == ev.st[k][1] IN TLCEval([val |-> s.val, empty |-> s.empty, used |-> s.used, alloc |-> s.alloc, tight |-> tight])
(* every other register, and the counter, as the action says *)
Matches == /\ Len(ev.st) = Len(regs') /\ ev.curr = curr'
           /\ Is(\A k \in DOMAIN regs' : regs'[k] = Reg(k, IF regs'[k] = None THEN FALSE ELSE regs'[k].tight))
D == ev.d + 1
A == ev.a + 1
TBegin == /\ IsEvent("begin") /\ regs' = TLCEval([k \in 1..ev.nr |-> None]) /\ curr' = 0 /\ act' = <<>> /\ ev.curr = 0
TNew == IsEvent("new") /\ New(D, Reg(D, FALSE)) /\ Matches /\ act' = act
TMut == IsEvent("mut") /\ Changes(D, Reg(D, FALSE)) /\ Matches /\ act' = act
TCopy == IsEvent("copy") /\ Copy(D, A, Reg(D, TRUE)) /\ Matches /\ act' = act
TAssign == IsEvent("assign") /\ Assign(D, A, Reg(D, FALSE)) /\ Matches /\ act' = act
TSwap == IsEvent("swap") /\ Swap(D, A) /\ Matches /\ act' = act
TCollect == IsEvent("collect") /\ Collect(D, Reg(D, IF Due(regs[D]) THEN TRUE ELSE regs[D].tight)) /\ Matches /\ act' = act
TDrop == IsEvent("drop") /\ Drop(D) /\ Matches /\ act' = act
TEnd == IsEvent("end") /\ ev.curr = 0 /\ (\A k \in DOMAIN ev.st : ev.st[k] = <<>>) /\ regs' = <<>> /\ curr' = 0 /\ act' = act
TraceInit == tick = 1 /\ regs = <<>> /\ curr = 0 /\ act = <<>>
TraceNext == TBegin \/ TNew \/ TMut \/ TCopy \/ TAssign \/ TSwap \/ TCollect \/ TDrop \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
