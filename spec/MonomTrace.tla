----------------------------- MODULE MonomTrace -----------------------------
(* Trace validation for Monom: every logged call must be the action of the   *)
(* same name, and the whole logged store must be the next store.             *)
EXTENDS Monom, TraceLib
LOCAL INSTANCE Text

Opt(op, rec) == Is(\A f \in DOMAIN rec : ev[f] = rec[f])
Obs(st) == /\ Len(st) = Len(regs')
           /\ Is(\A k \in 1..Len(st) :
                IF regs'[k] = None THEN st[k] = <<>>
                ELSE /\ Len(st[k]) = nv + 2
                     /\ st[k][1] = regs'[k][1]
                     /\ st[k][2] = Deg(regs'[k])
                     /\ \A i \in 2..(nv + 1) : st[k][i + 1] = regs'[k][i])
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
Query(op) == IsEvent(op) /\ UNCHANGED vars /\ Obs(ev.st)

TBegin == IsEvent("begin") /\ Begin(ev.nr, ev.n) /\ act' = act
TMut ==
  \/ Step("zero", ZeroM(ev.d + 1, ev.pos))
  \/ Step("var", VarOp(ev.d + 1, ev.v + 1, ev.pos))
  \/ Step("set", SetM(ev.d + 1, ev.pos, ev.e))
  \/ Step("copy", Copy(ev.d + 1, ev.a + 1))
  \/ Step("gc", Copy(ev.d + 1, ev.a + 1))
  \/ Step("prol", Prol(ev.d + 1, ev.v + 1, ev.a + 1))
  \/ Step("prod", Prod(ev.d + 1, ev.a + 1, ev.b + 1))
  \/ Step("prodm", Prod(ev.d + 1, ev.a + 1, ev.b + 1))
  \/ Step("power", Power(ev.d + 1, ev.a + 1, ev.x))
  \/ Step("movec", Move(ev.d + 1, ev.a + 1))
  \/ Step("moveassign", Move(ev.d + 1, ev.a + 1))
  \/ Step("assign", Assign(ev.d + 1, ev.a + 1))
  \/ Step("swap", SwapM(ev.d + 1, ev.a + 1))
  \/ Step("mult", MultM(ev.d + 1, ev.a + 1))
  \/ Step("multv", MultV(ev.d + 1, ev.v + 1, ev.a + 1))
  \/ Step("div", DivM(ev.d + 1, ev.a + 1))
  \/ Step("setpos", SetPos(ev.d + 1, ev.pos))
  \/ Step("perm", Permute(ev.d + 1, ev.a + 1, ev.perm))
  \/ Step("free", FreeM(ev.d + 1))
(* the random generator: any monomial whose degree lies in the range *)
TRand == /\ IsEvent("rand") /\ Live(ev.d + 1) /\ Len(ev.got) = nv + 2
         /\ ev.got[1] = regs[ev.d + 1][1]
         /\ Put(ev.d + 1, <<ev.got[1]>> \o SubSeq(ev.got, 3, Len(ev.got))) /\ act' = act
         /\ LET m == regs'[ev.d + 1] IN Deg(m) \in ev.d1..ev.d2 /\ \A j \in 2..Len(m) : m[j] >= 0
         /\ Obs(ev.st)
TQ == Query("q") /\ Opt("q", QPair(ev.a + 1, ev.b + 1)) /\ ev.txt = MonoText(regs[ev.a + 1])
TGL == Query("gl") /\ Opt("gl", QGL(ev.a + 1, ev.b + 1))
TQ3 == Query("q3") /\ Opt("q3", Q3(ev.a + 1, ev.b + 1, ev.c + 1))
TOrd == Query("porder") /\ ev.cmp = QOrd(ev.ord, ev.a + 1, ev.b + 1)
TEnd == /\ IsEvent("end") /\ ev.live = 0
        /\ regs' = [k \in 1..Len(regs) |-> None] /\ Obs(ev.st) /\ UNCHANGED <<nv, act>>

TraceInit == tick = 1 /\ nv = 1 /\ regs = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TRand \/ TQ \/ TGL \/ TQ3 \/ TOrd \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
