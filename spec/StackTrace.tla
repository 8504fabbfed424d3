----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, TraceLib
Obs(st) == /\ Len(st) = Len(stacks')
           /\ Is(\A d \in 1..Len(st) :
                IF stacks'[d] = NoStack THEN st[d] = <<>>
                ELSE LET s == stacks'[d]  o == st[d] IN
                     o[1] = s /\ o[2] = Len(s) /\ o[3] >= Len(s) /\ o[4] = (s # <<>>) /\ o[5] = (IF s = <<>> THEN -1 ELSE s[Len(s)]))
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
TBegin == IsEvent("begin") /\ stacks' = [d \in 1..ev.ns |-> NoStack] /\ cap' = [d \in 1..ev.ns |-> 0] /\ act' = act
TMut ==
  \/ Step("new", New(ev.d + 1, ev.cap))
  \/ Step("copy", CopyC(ev.d + 1, ev.a + 1))
  \/ Step("assign", Assign(ev.d + 1, ev.a + 1))
  \/ Step("swap", Swap(ev.d + 1, ev.a + 1))
  \/ Step("push", Push(ev.d + 1, ev.v))
  \/ Step("pushn", PushN(ev.d + 1, ev.v, ev.n))
  \/ Step("pop", Pop(ev.d + 1))
  \/ Step("popn", PopN(ev.d + 1, ev.n))
  \/ Step("reset", Reset(ev.d + 1))
TEnd == IsEvent("end") /\ ev.a = 0 /\ ev.b = 0 /\ stacks' = [d \in DOMAIN stacks |-> NoStack] /\ Obs(ev.st) /\ UNCHANGED <<cap, act>>
TraceInit == tick = 1 /\ stacks = <<>> /\ cap = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
