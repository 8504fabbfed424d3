------------------------------- MODULE HpTrace ------------------------------
EXTENDS HilbertPoly, TraceLib
(* the log writes fractions as read: <<num, den>>, whole numbers with den 1 *)
Obs(st) == Len(st) = Len(hp') /\ Is(\A k \in 1..Len(st) : st[k] = hp'[k])
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
Put(d, p) == hp' = [hp EXCEPT ![d] = p]
DimOf(d) == Len(hp[d]) - 1
Live(d) == d \in 1..Len(hp) /\ hp[d] # <<>>
TBegin == IsEvent("begin") /\ hp' = [k \in 1..ev.nr |-> <<>>] /\ act' = act
TMut ==
  \/ Step("new", Put(ev.d + 1, HZero(ev.dim)))
  \/ Step("bin", Live(ev.d + 1) /\ ev.b <= DimOf(ev.d + 1) /\ Put(ev.d + 1, HBin(DimOf(ev.d + 1), ev.a, ev.b)))
  \/ Step("add", Live(ev.d + 1) /\ Live(ev.a + 1) /\ Put(ev.d + 1, HAdd(hp[ev.d + 1], hp[ev.a + 1])))
  \/ Step("sub", Live(ev.d + 1) /\ Live(ev.a + 1) /\ Put(ev.d + 1, HSub(hp[ev.d + 1], hp[ev.a + 1])))
  \/ Step("mul", Live(ev.d + 1) /\ Put(ev.d + 1, HMul(hp[ev.d + 1], ev.x)))
TQ == /\ IsEvent("q") /\ UNCHANGED vars /\ Obs(ev.st)
      /\ LET p == hp[ev.d + 1] IN
         /\ ev.dim = Len(p) - 1
         /\ ev.zero = [k \in 1..Len(p) |-> p[k] = RZero]
         /\ ev.out = HTerms(p, Len(p))
TEnd == IsEvent("end") /\ hp' = [k \in 1..Len(hp) |-> <<>>] /\ Obs(ev.st) /\ act' = act
TraceInit == tick = 1 /\ hp = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TQ \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
