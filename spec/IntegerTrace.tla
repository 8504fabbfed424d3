---------------------------- MODULE IntegerTrace ----------------------------
EXTENDS Integer, TraceLib
Obs(st) == Len(st) = Len(ints') /\ Is(\A k \in 1..Len(st) : st[k] = ints'[k])
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ act' = act
d_ == ev.d + 1
a_ == ev.a + 1
b_ == ev.b + 1
TBegin == IsEvent("begin") /\ ints' = [k \in 1..ev.nr |-> NoInt] /\ act' = act
TMut ==
  \/ Step("new", New(d_))
  \/ Step("str", FromText(d_, ev.base, ev.dg))
  \/ Step("si", SetTo(d_, ev.v))
  \/ Step("ui", SetTo(d_, ev.v))
  \/ Step("copy", Copy(d_, a_))
  \/ Step("assign", Assign(d_, a_))
  \/ Step("movec", Move(d_, a_))
  \/ Step("movea", Live(d_) /\ Move(d_, a_))
  \/ Step("swap", Swap(d_, a_))
  \/ Step("free", Free(d_))
  \/ Step("neg", NegR(d_))
  \/ Step("add2", Add2(d_, a_)) \/ Step("sub2", Sub2(d_, a_)) \/ Step("mul2", Mul2(d_, a_)) \/ Step("div2", Div2(d_, a_)) \/ Step("gcd2", Gcd2(d_, a_))
  \/ Step("add3", Add3(d_, a_, b_)) \/ Step("sub3", Sub3(d_, a_, b_)) \/ Step("mul3", Mul3(d_, a_, b_)) \/ Step("div3", Div3(d_, a_, b_)) \/ Step("gcd3", Gcd3(d_, a_, b_))
TSkip == IsEvent("skip") /\ UNCHANGED vars /\ Obs(ev.st)
TQ == IsEvent("q") /\ UNCHANGED vars /\ Obs(ev.st) /\ Live(d_) /\ ev.q = Queries(ints[d_])
TDivis == IsEvent("divis") /\ UNCHANGED vars /\ Obs(ev.st) /\ ev.ans = Divides(ints[a_], ints[d_])
TGet == /\ IsEvent("get") /\ UNCHANGED vars /\ Obs(ev.st)
        /\ Is(\A j \in 2..Len(ev.dg) : ev.dg[j] < ev.base)
        /\ Len(ev.dg) >= 2 /\ (Len(ev.dg) > 2 => ev.dg[2] # 0)
        /\ (ev.dg[1] < 0) = (Sgn(ints[d_]) < 0)
        /\ Horner(Tail(ev.dg), ev.base) = (IF Sgn(ints[d_]) < 0 THEN Neg(ints[d_]) ELSE ints[d_])
TEcho == IsEvent("echo") /\ UNCHANGED vars /\ Obs(ev.st) /\ ev.len = ev.n /\ ev.in = ev.out
(* all memory of the integers is given back to their arenas *)
TEnd == IsEvent("end") /\ ev.a = 0 /\ ev.b = 0 /\ ints' = [k \in DOMAIN ints |-> NoInt] /\ Obs(ev.st) /\ act' = act
TraceInit == tick = 1 /\ ints = <<>> /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TSkip \/ TQ \/ TDivis \/ TGet \/ TEcho \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
