----------------------------- MODULE PolyTrace ------------------------------
(* Trace validation for Poly: every logged call must be the action of the    *)
(* same name; every register is compared after every call.                   *)
EXTENDS Poly, TraceLib
LOCAL INSTANCE BigInt
LOCAL INSTANCE Text
VARIABLE lst                                  \* the registers as last logged

New(k) == OfList(ev.st[k])
Obs == /\ Len(ev.st) = Len(regs')
       /\ lst' = ev.st
       /\ Is(\A k \in 1..Len(ev.st) :
            IF regs'[k] = regs[k] /\ Len(lst) = Len(ev.st) /\ ev.st[k] = lst[k] THEN TRUE
            ELSE Represents(ev.st[k], regs'[k], ord'))
Canon(k) == Is(CanonList(ev.st[k], ord))          \* before the value of the list is used
Step(op, A) == IsEvent(op) /\ A /\ Obs /\ act' = act
Query(op) == IsEvent(op) /\ UNCHANGED <<vars, lst>>
D == ev.d + 1
A1 == ev.a + 1
B1 == ev.b + 1

TBegin == IsEvent("begin") /\ Begin(ev.nr, ev.n, ev.order) /\ act' = act /\ lst' = [k \in 1..ev.nr |-> <<>>]
TRing ==
  \/ Step("set", SetP(D, ev.in))
  \/ Step("const", ConstP(D, ev.c))
  \/ Step("mono", MonoP(D, <<ev.pos>> \o ev.e))
  \/ Step("copy", Copy(D, A1)) \/ Step("assign", Copy(D, A1)) \/ Step("gc", Copy(D, A1))
  \/ Step("prol", Prol(D, ev.v + 1, A1))
  \/ Step("movec", Move(D, A1)) \/ Step("moveassign", Move(D, A1))
  \/ Step("swap", SwapP(D, A1))
  \/ Step("minus", Minus(D)) \/ Step("opneg", Put(D, PNeg(regs[A1])))
  \/ Step("add", AddP(D, D, A1)) \/ Step("opadd", AddP(D, A1, B1))
  \/ Step("sub", SubP(D, D, A1)) \/ Step("opsub", SubP(D, A1, B1))
  \/ Step("mult", MultP(D, D, A1)) \/ Step("opmult", MultP(D, A1, B1))
  \/ Step("addc", AddC(D, ev.c)) \/ Step("subc", SubC(D, ev.c)) \/ Step("multc", MultC(D, ev.c))
  \/ Step("pow", PowP(D, ev.x))
Ds == [j \in 1..Len(ev.ds) |-> ev.ds[j] + 1]
NFQuery(mode) ==
  LET f0 == regs[D]  f1 == regs'[D]  gs == [j \in 1..Len(ev.ds) |-> regs[Ds[j]]] IN
  /\ ev.isnf = TailIrreducible(f1, gs)
  /\ mode # "nftail" => ev.redh = (f0 # PZero /\ FirstDivisor(gs, PLm(f0, ord), ord) # 0)
  /\ mode = "nftail" => ev.redt = (f0 # PZero /\ ~TailIrreducible(f0, gs))
TRed ==
  \/ Step("red", Canon(D) /\ Red(D, A1, New(D)))
  \/ Step("redmaybe", Canon(D) /\ RedMaybe(D, A1, New(D)))
  \/ Step("pp", Canon(D) /\ PrimPart(D, New(D)))
  \/ \E m \in {"nf", "nfhead", "nftail"} : Step(m, Canon(D) /\ NormalForm(D, Ds, m, New(D)) /\ Is(NFQuery(m)))
(* the driver leaves out calls outside the preconditions (and huge products) *)
TSkip == Query("skip")
(* the size measure: machine words of all coefficients *)
RECURSIVE NormSum(_, _)
NormSum(ts, k) == IF k > Len(ts) THEN 0 ELSE Limbs(ts[k][2]) + NormSum(ts, k + 1)
TQ == /\ Query("q")
      /\ Is(LET f == regs[A1] IN
         /\ ev.len = Cardinality(DOMAIN f) /\ ev.iszero = (f = PZero) /\ ev.bool = (f # PZero)
         /\ ev.txt = PolyText(lst[A1])          \* the list as checked when it was logged
         /\ ev.maxpos = MaxPosOf(f) /\ ev.ispp = IsPrimitive(f)
         /\ f # PZero => /\ ev.lm = PLm(f, ord) /\ ev.lc = f[ev.lm] /\ ev.deg = Deg(ev.lm)
                         /\ ev.norm = NormSum(lst[A1], 1))
TCmp == /\ Query("cmp") /\ ev.comparable
        /\ ev.cmp = OrdCmp(ord, PLm(regs[A1], ord), PLm(regs[B1], ord))
TEnd == /\ IsEvent("end") /\ ev.live = 0 /\ regs' = <<>> /\ lst' = <<>> /\ UNCHANGED <<nv, ord, act>>

TraceInit == tick = 1 /\ nv = 1 /\ ord = 18 /\ regs = <<>> /\ act = <<>> /\ lst = <<>>
TraceNext == TBegin \/ TRing \/ TRed \/ TSkip \/ TQ \/ TCmp \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, lst, tick>>
=============================================================================
