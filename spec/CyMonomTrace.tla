---------------------------- MODULE CyMonomTrace ----------------------------
(* Trace validation for the monomials of the Python binding: the store of     *)
(* Monom.tla, driven through Python expressions.                              *)
EXTENDS MonomTrace
CStep(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
(* a permuted copy: the exponents move, the component stays *)
CPerm(d, a, p) == /\ Live(a) /\ IsPerm(p) /\ Len(p) = nv
                  /\ Put(d, [i \in 1..(nv + 1) |-> IF i = 1 THEN regs[a][1] ELSE regs[a][p[i - 1] + 2]])
(* quotient as an expression *)
CDiv(d, a, b) == Live(a) /\ Live(b) /\ Is(MDivides(regs[b], regs[a])) /\ Put(d, MQuo(regs[a], regs[b]))
CRand(d) == /\ Len(ev.got) = nv + 1 /\ Put(d, ev.got)
            /\ Is(ev.got[1] = -1 /\ Deg(ev.got) \in ev.d1..ev.d2 /\ \A j \in 2..Len(ev.got) : ev.got[j] >= 0)
TCy ==
  \/ CStep("cperm", CPerm(ev.d + 1, ev.a + 1, ev.perm))
  \/ CStep("cdiv", CDiv(ev.d + 1, ev.a + 1, ev.b + 1))
  \/ CStep("crand", CRand(ev.d + 1))
TCq == /\ IsEvent("cq") /\ UNCHANGED vars /\ Obs(ev.st)
       /\ Is(LET x == regs[ev.a + 1]  y == regs[ev.b + 1] IN
          /\ ev.div = MDivides(y, x) /\ ev.lex = Lex(x, y) /\ ev.deglex = DegLex(x, y) /\ ev.alex = ALex(x, y)
          /\ ev.bool = (Deg(x) > 0) /\ ev.len = nv /\ ev.at = Tail(x)
          /\ ev.str = x /\ ev.repr = <<x[1], Deg(x)>> \o Tail(x))
TCEnd == /\ IsEvent("cend") /\ ev.curr = 0 /\ regs' = <<>> /\ UNCHANGED <<nv, act>>
CyTraceNext == TBegin \/ TMut \/ TCy \/ TCq \/ TCEnd
CyTraceSpec == TraceInit /\ [][CyTraceNext]_<<vars, tick>>
=============================================================================
