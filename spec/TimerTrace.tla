----------------------------- MODULE TimerTrace -----------------------------
(* the driver controls every clock of the process, so readings are exact *)
EXTENDS Timer, TraceLib
Obs(st) == Len(st) = Len(timers') /\ Is(\A k \in 1..Len(st) : st[k] = timers'[k].acc)
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
TBegin == IsEvent("begin") /\ now' = Z3 /\ timers' = [k \in 1..ev.nt |-> Fresh] /\ Obs(ev.st) /\ act' = act
TMut ==
  \/ Step("tick", Tick(<<ev.r, ev.u, ev.s>>))
  \/ Step("start", Start(ev.k + 1))
  \/ Step("cont", Cont(ev.k + 1))
  \/ Step("stop", Stop(ev.k + 1))
  \/ Step("copy", CopyT(ev.k + 1, ev.a + 1))
TPrint == IsEvent("print") /\ UNCHANGED vars /\ ev.out = Reading(ev.k + 1) /\ Obs(ev.st)
TEnd == IsEvent("end") /\ UNCHANGED vars /\ Obs(ev.st)
TraceInit == tick = 1 /\ now = Z3 /\ timers = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TPrint \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
