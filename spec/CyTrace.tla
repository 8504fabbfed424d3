------------------------------ MODULE CyTrace -------------------------------
(* Trace validation for the Python binding: every register and every view is  *)
(* read back after every statement.                                           *)
EXTENDS Cy, TraceLib
LOCAL INSTANCE BigInt
VARIABLE lst

New(k) == OfList(ev.st[k])
ViewObs == /\ Len(ev.views) = Len(views')
           /\ Is(\A i \in 1..Len(views') : ev.views[i] = views'[i][2])
Obs == /\ Len(ev.st) = Len(regs')
       /\ lst' = ev.st
       /\ Is(\A k \in 1..Len(ev.st) :
            IF regs'[k] = regs[k] /\ Len(lst) = Len(ev.st) /\ ev.st[k] = lst[k] THEN TRUE
            ELSE Represents(ev.st[k], regs'[k], ord'))
       /\ ViewObs
D == ev.d + 1
A1 == ev.a + 1
B1 == ev.b + 1
Canon(k) == Is(CanonList(ev.st[k], ord))
Step(op, A) == IsEvent(op) /\ A /\ Orphan(D) /\ Obs /\ act' = act
Own(op, A) == IsEvent(op) /\ A /\ InPlace(D) /\ Obs /\ act' = act
Query(op) == IsEvent(op) /\ UNCHANGED <<cyvars, lst>>

TBegin == IsEvent("begin") /\ Begin(ev.nr, ev.n, ev.order) /\ act' = act /\ views' = <<>> /\ lst' = [k \in 1..ev.nr |-> <<>>]
TExpr ==
  \/ Step("set", SetP(D, ev.in)) \/ Step("mono", MonoP(D, <<ev.pos>> \o ev.e))
  \/ Step("opneg", Put(D, PNeg(regs[A1])))
  \/ Step("opadd", AddP(D, A1, B1)) \/ Step("opsub", SubP(D, A1, B1)) \/ Step("opmult", MultP(D, A1, B1))
  \/ Step("addc", AddC(D, ev.c)) \/ Step("raddc", AddC(D, ev.c))
  \/ Step("subc", SubC(D, ev.c)) \/ Step("rsubc", RSubC(D, ev.c))
  \/ Step("multc", MultC(D, ev.c)) \/ Step("rmultc", MultC(D, ev.c))
  \/ Step("pow", PowP(D, ev.x))
TOwn ==
  \/ Own("red", Canon(D) /\ Red(D, A1, New(D)))
  \/ Own("pp", Canon(D) /\ PrimPart(D, New(D)))
TViews ==
  \/ IsEvent("take") /\ Take(A1) /\ Obs
  \/ IsEvent("takesum") /\ TakeOf(PAdd(regs[A1], regs[B1])) /\ Obs
  \/ IsEvent("takeprod") /\ Is(CanPMul(regs[A1], regs[B1])) /\ TakeOf(PMul(regs[A1], regs[B1])) /\ Obs
  \/ IsEvent("drop") /\ Drop /\ Obs
(* the driver leaves out calls outside the preconditions (and huge products) *)
TSkip == Query("skip")
TQ == /\ Query("q")
      /\ Is(LET f == regs[A1] IN
         /\ ev.len = Cardinality(DOMAIN f) /\ ev.iszero = (f = PZero) /\ ev.bool = (f # PZero)
         /\ ev.ispp = IsPrimitive(f) /\ ev.size = nv
         /\ ev.top = ~IsPot(ord) /\ ev.base = BaseOf(ord) /\ ev.comparable
         /\ f # PZero => /\ ev.lm = PLm(f, ord) /\ ev.lc = f[ev.lm] /\ ev.deg = Deg(ev.lm)
                         /\ ev.hex = ev.lc /\ ev.sgn = Sgn(ev.lc) /\ ev.one = (ev.lc = One) /\ ev.absone = IsAbsOne(ev.lc)
                         /\ ev.lcbool /\ ~ev.lczero)
TEnd == /\ IsEvent("end") /\ ev.curr = 0 /\ regs' = <<>> /\ lst' = <<>> /\ views' = <<>> /\ UNCHANGED <<nv, ord, act>>

TraceInit == tick = 1 /\ nv = 1 /\ ord = 18 /\ regs = <<>> /\ act = <<>> /\ lst = <<>> /\ views = <<>>
TraceNext == TBegin \/ TExpr \/ TOwn \/ TViews \/ TSkip \/ TQ \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<cyvars, lst, tick>>
=============================================================================
