------------------------------- MODULE SysTrace ------------------------------
(* Logs of GInv::JanetPolyInt: generators pushed, completed by one of its       *)
(* algorithms, queried, pushed to again.                                        *)
EXTENDS Involutive, TraceLib
CONSTANT Checked              \* which of "basis", "use", "hp", "marks", "memory" is checked in this run

Cx == MkCtx(nv, ord)
DumpBasis == TLCEval([i \in 1..Len(ev.T) |-> [m |-> ev.T[i][1], nm |-> ev.T[i][2], anc |-> ev.T[i][3], t |-> ev.T[i][4]]])
TBegin == /\ IsEvent("begin") /\ nv' = ev.n /\ ord' = ev.order /\ gens' = <<>> /\ basis' = <<>> /\ one' = FALSE /\ ready' = TRUE
TPush == /\ IsEvent("push") /\ ev.cmp
         /\ gens' = (IF ev.p = <<>> THEN gens ELSE Append(gens, ev.p))
         /\ ready' = FALSE /\ UNCHANGED <<nv, ord, basis, one>>
TBuild == /\ IsEvent("build")
          /\ basis' = DumpBasis /\ one' = ev.one /\ ready' = TRUE
          /\ ev.size = (IF ev.one THEN 1 ELSE Len(ev.T))
          /\ ("basis" \in Checked =>
               /\ ev.trees
               /\ (ev.one \/ ev.maxpos = Top(gens))
               /\ IF ev.one THEN ev.T = <<>> /\ Top(gens) = -1 /\ Is(HasUnit(Cx, gens))
                  ELSE /\ Top(gens) = -1 => Is(NoConstant(basis'))
                       /\ Is(IsJanetBasis(Cx, basis', gens)))
          /\ ("marks" \in Checked /\ ~ev.one) =>
               /\ Is(ev.mk = TLCEval([i \in DOMAIN basis' |-> IF basis'[i].anc = basis'[i].m THEN 1 ELSE 0]))
               /\ Is(Ancestors(basis')) /\ Is(MarkedGroebner(Cx, basis', gens))
          /\ ("use" \in Checked /\ ~ev.one) => Is(Decides(Cx, basis', gens))
          /\ UNCHANGED <<nv, ord, gens>>
(* the unit ideal is not kept as a basis element, but is used as one *)
UnitMonom == TLCEval([i \in 1..(nv + 1) |-> IF i = 1 THEN -1 ELSE 0])
UnitBasis == <<[m |-> UnitMonom, nm |-> TLCEval([v \in 1..nv |-> 0]), anc |-> UnitMonom, t |-> <<<<UnitMonom, <<1, 1>>>>>>]>>
Divisors == IF one THEN UnitBasis ELSE basis
TNf == /\ IsEvent("nf") /\ UNCHANGED vars
       /\ "use" \in Checked => Is(IsNormalForm(Cx, Divisors, ev.p, ev.r))
TFind == /\ IsEvent("find") /\ UNCHANGED vars
         /\ "use" \in Checked => Is(LET D == JDivisors(Divisors, ev.m) IN
                IF D = {} THEN ev.found = <<>> ELSE \E i \in D : Cardinality(D) = 1 /\ ev.found = Divisors[i].m)
THp == /\ IsEvent("hp") /\ UNCHANGED vars
       /\ ev.has = (~one /\ basis # <<>>)
       /\ ("hp" \in Checked /\ ev.has) =>
             /\ Is(ev.hp = HilbertOf(basis, nv, gens))
             /\ Is(\A i \in 1..Len(ev.hps) : ev.hps[i][2] = HilbertOfComp(basis, nv, ev.hps[i][1]))
             /\ {ev.hps[i][1] : i \in 1..Len(ev.hps)} = {basis[i].m[1] : i \in DOMAIN basis}
             /\ Is(Hc!Small(TopDeg(basis), nv) => HilbertCounts(basis, nv, gens, ev.hp))
TEnd == /\ IsEvent("end") /\ ("memory" \in Checked => ev.live = 0 /\ ev.curr = 0)
        /\ gens' = <<>> /\ basis' = <<>> /\ one' = FALSE /\ ready' = TRUE /\ UNCHANGED <<nv, ord>>
TraceInit == tick = 1 /\ nv = 1 /\ ord = 18 /\ gens = <<>> /\ basis = <<>> /\ one = FALSE /\ ready = TRUE
TraceNext == TBegin \/ TPush \/ TBuild \/ TNf \/ TFind \/ THp \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
