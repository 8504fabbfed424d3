------------------------------ MODULE ListTrace -----------------------------
(* Trace validation of GInv::List *)
EXTENDS List, TraceLib
Obs(st) == /\ Len(st) = Len(lists')
           /\ Is(\A d \in 1..Len(st) :
                IF lists'[d] = Gone THEN st[d] = <<>>
                ELSE LET s == lists'[d] IN
                     st[d] = <<s, s, Len(s), s # <<>>, IF s = <<>> THEN -1 ELSE s[1]>>)
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
Query(op) == IsEvent(op) /\ UNCHANGED vars /\ Obs(ev.st)
TBegin == IsEvent("begin") /\ Begin(ev.nl, ev.ni, ev.nc) /\ act' = act
TMut ==
  \/ Step("new", New(ev.d + 1, ev.ar))
  \/ Step("copy", CopyC(ev.d + 1, ev.a + 1, ev.ar))
  \/ Step("movec", MoveC(ev.d + 1, ev.a + 1))
  \/ Step("movea", MoveA(ev.d + 1, ev.a + 1))
  \/ Step("assign", Assign(ev.d + 1, ev.a + 1))
  \/ Step("swap", Swap(ev.d + 1, ev.a + 1))
  \/ Step("clear", Clear(ev.d + 1))
  \/ Step("push", Push(ev.d + 1, ev.v))
  \/ Step("pushn", PushN(ev.d + 1, ev.v, ev.n))
  \/ Step("inextn", ItNextN(ev.k + 1, ev.n))
  \/ Step("pop", Pop(ev.d + 1, ev.got))
  \/ Step("ibegin", ItBegin(ev.k + 1, ev.a + 1))
  \/ Step("icopy", ItCopy(ev.k + 1, ev.j + 1)) /\ ev.eq /\ ~ev.ne
  \/ Step("inext", ItNext(ev.k + 1))
  \/ Step("iset", ItSet(ev.k + 1, ev.v))
  \/ Step("ins", ItIns(ev.k + 1, ev.v))
  \/ Step("del", ItDel(ev.k + 1))
  \/ Step("iclear", ItClear(ev.k + 1))
  \/ Step("get", Get(ev.k + 1, ev.j + 1)) /\ ev.held = <<cits'[ev.j + 1][2]>>
  \/ Step("splice", Splice(ev.k + 1, ev.j + 1))
  \/ Step("cbegin", CBegin(ev.j + 1, ev.a + 1))
  \/ Step("cfrom", CFrom(ev.j + 1, ev.k + 1))
  \/ Step("cnext", CNext(ev.j + 1))
  \/ Step("cset", CSet(ev.j + 1, ev.v))
CanCompare(k, j) == cits[k] # Lost /\ cits[j] # Lost
TQ ==
  \/ Query("qi") /\ It(ev.k + 1) /\ ev.rest = RestI(ev.k + 1) /\ ev.on = (ev.rest # <<>>)
  \/ Query("qc") /\ cits[ev.j + 1] # Lost /\ ev.rest = RestC(ev.j + 1) /\ ev.on = (ev.rest # <<>>)
  \/ Query("ieq") /\ It(ev.k + 1) /\ It(ev.j + 1) /\ ev.eq = (its[ev.k + 1] = its[ev.j + 1]) /\ ev.ne = ~ev.eq
  \/ Query("ceq") /\ CanCompare(ev.k + 1, ev.j + 1) /\ ev.ne = ~ev.eq
       /\ Is((CHeld(ev.k + 1) /\ CHeld(ev.j + 1)) \/ (ev.eq = (cits[ev.k + 1] = cits[ev.j + 1])))
TEnd == /\ IsEvent("end")
        /\ (ev.a = 0) = Is(\A j \in DOMAIN cits : ~(CHeld(j) /\ cits[j][3] = 0))
        /\ (ev.b = 0) = Is(\A j \in DOMAIN cits : ~(CHeld(j) /\ cits[j][3] = 1))
        /\ lists' = [d \in DOMAIN lists |-> Gone] /\ Obs(ev.st) /\ UNCHANGED <<arena, its, cits, act>>
TraceInit == tick = 1 /\ lists = <<>> /\ arena = <<>> /\ its = <<>> /\ cits = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TQ \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
