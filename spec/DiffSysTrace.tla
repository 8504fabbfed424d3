----------------------------- MODULE DiffSysTrace -----------------------------
(* Logs of completions of differential and difference systems by the pure Python *)
(* package.                                                                       *)
EXTENDS DiffSys, TraceLib
Cx == MkCtx(nv, ord)
DumpBasis == TLCEval([j \in 1..Len(ev.T) |-> [m |-> ev.T[j][1], nm |-> ev.T[j][2], t |-> ev.T[j][3], f |-> Expr(ev.T[j][3])]])
DBegin == IsEvent("begin") /\ Begin(ev.n, ev.r, ev.order, ev.K, ev.diff)
DPush == IsEvent("push") /\ Is(Canon(ev.p)) /\ Push(Expr(ev.p))
DBuild == /\ IsEvent("build") /\ ev.trees
          /\ Complete(Cx, DumpBasis)
          /\ Is({ev.gb[j] : j \in DOMAIN ev.gb} = Minimal(basis')) /\ Len(ev.gb) = Cardinality({ev.gb[j] : j \in DOMAIN ev.gb})
Irreducible(ts) == \A j \in 1..Len(ts) : JDivisors(basis, ts[j][1]) = {}
NormalForm(p) == AllRow(Cx, Row(Cx, Expr(p)), basis, NoPoly)
DNf == /\ IsEvent("nf") /\ UNCHANGED vars
       /\ Is(Canon(ev.r) /\ Integral(ev.r) /\ Irreducible(ev.r) /\ Proportional(Row(Cx, Expr(ev.r)), NormalForm(ev.p)))
DNfq == /\ IsEvent("nfq") /\ UNCHANGED vars
        /\ Is(Canon(ev.r) /\ Irreducible(ev.r) /\ Row(Cx, Expr(ev.r)) = Nonzero(Scaled(NormalForm(ev.p), CoefValue(ev.den))))
DFind == /\ IsEvent("find") /\ UNCHANGED vars
         /\ Is(LET D == JDivisors(basis, ev.m) IN
               IF D = {} THEN ev.found = <<>> /\ ev.g = <<>>
               ELSE LET j == CHOOSE x \in D : TRUE IN
                    /\ Cardinality(D) = 1 /\ ev.found = basis[j].m
                    /\ IF ev.kind = "janet" \/ ev.m = basis[j].m THEN ev.g = basis[j].t
                       ELSE /\ ev.g # <<>> /\ Canon(ev.g) /\ ev.g[1][1] = ev.m
                            /\ \A k \in 2..Len(ev.g) : ev.g[k][1][1] = ev.m[1] => JDivisors(basis, ev.g[k][1]) = {}
                            /\ HeadRow(Cx, Row(Cx, Expr(ev.g)), basis) = NoPoly)
DHp == /\ IsEvent("hp") /\ UNCHANGED vars
       /\ IF basis = <<>> THEN ev.hp = <<>>
          ELSE LET S == Comps(ev.verge) IN
               /\ Is(ev.hp = HilbertIn(basis, S))
               /\ Is(Hc!Small(TopDeg(basis), nv) => HilbertCounts(basis, S, ev.hp))
DEnd == /\ IsEvent("end") /\ gens' = <<>> /\ basis' = <<>> /\ ready' = TRUE /\ UNCHANGED <<nv, np, ord, comps, diff>>
DTraceInit == tick = 1 /\ nv = 1 /\ np = 0 /\ ord = 18 /\ comps = 0 /\ diff = TRUE /\ gens = <<>> /\ basis = <<>> /\ ready = TRUE
DTraceNext == DBegin \/ DPush \/ DBuild \/ DNf \/ DNfq \/ DFind \/ DHp \/ DEnd
DTraceSpec == DTraceInit /\ [][DTraceNext]_<<vars, tick>>
=============================================================================
