----------------------------- MODULE BMonomTrace ----------------------------
(* Trace validation for BMonom.  Every logged register is the list of its     *)
(* variables in stored order, which must be strictly decreasing.              *)
EXTENDS BMonom, TraceLib

Obs(st) == /\ Len(st) = Len(regs')
           /\ Is(\A k \in 1..Len(st) :
                IF regs'[k] = None THEN st[k] = <<>>
                ELSE /\ Len(st[k]) = 1
                     /\ Len(st[k][1]) = Cardinality(regs'[k][1])
                     /\ {st[k][1][i] : i \in 1..Len(st[k][1])} = regs'[k][1]
                     /\ \A i \in 1..(Len(st[k][1]) - 1) : st[k][1][i] > st[k][1][i + 1])
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act

TBegin == IsEvent("begin") /\ Begin(ev.nr) /\ act' = act
TMut ==
  \/ Step("one", One(ev.d + 1))
  \/ Step("var", VarOp(ev.d + 1, ev.v))
  \/ Step("copy", Copy(ev.d + 1, ev.a + 1))
  \/ Step("addv", AddV(ev.d + 1, ev.a + 1, ev.v))
  \/ Step("prod", Prod(ev.d + 1, ev.a + 1, ev.b + 1))
  \/ Step("assign", Assign(ev.d + 1, ev.a + 1))
  \/ Step("swap", SwapB(ev.d + 1, ev.a + 1))
  \/ Step("div", DivB(ev.d + 1, ev.a + 1, ev.b + 1))
  \/ Step("free", FreeB(ev.d + 1))
TQ == /\ IsEvent("q") /\ UNCHANGED vars /\ Obs(ev.st)
      /\ LET want == Query(ev.a + 1, ev.b + 1) IN Is(\A f \in DOMAIN want : ev.q[f] = want[f])
      /\ LET s == Down(Val(ev.a + 1)) IN ev.text = s
TEnd == /\ IsEvent("end") /\ ev.live = 0 /\ regs' = [k \in 1..Len(regs) |-> None] /\ Obs(ev.st) /\ act' = act

TraceInit == tick = 1 /\ regs = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TQ \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
