--------------------------- MODULE CompletionTrace ---------------------------
(* Logs of GInv::MJanet and GInv::MCompletion (C05) and of the Hilbert         *)
(* polynomials of completed systems (C03).                                      *)
EXTENDS Completion, InvolHp, TraceLib
VARIABLES late, flags         \* late: 1 built, 2 pushed to after a build; the flags of els
tvars == <<vars, done, late, flags>>

DumpEls == TLCEval([k \in 1..Len(ev.T) |-> [lm |-> Tail(ev.T[k][1]), anc |-> Tail(ev.T[k][3])]])
DumpFlags == TLCEval([k \in 1..Len(ev.T) |-> ev.T[k][2]])
AsSet(E) == {E[k] : k \in DOMAIN E}
(* the logged elements become the state; they are checked to be the expected ones *)
Adopt == els' = DumpEls /\ flags' = DumpFlags /\ Is(ev.size = Len(els')) /\ Is(flags' = FlagsOf(kind', els'))
TBegin == /\ IsEvent("begin") /\ nv' = ev.n /\ kind' = ev.kind /\ gens' = <<>> /\ els' = <<>> /\ done' = FALSE
          /\ late' = 0 /\ flags' = <<>> /\ act' = act
TPush == /\ IsEvent("push") /\ Len(ev.e) = nv /\ kind' = kind
         /\ Adopt
         /\ LET x == [lm |-> ev.e, anc |-> ev.e]
                had == IF kind = "janet" THEN Divs(els, flags, x.lm) # {} ELSE \E k \in DOMAIN els : CmpOf(kind, els[k], x) = 0
            IN /\ Is(AsSet(els') = AsSet(els) \cup (IF had THEN {} ELSE {x})) /\ Len(els') = Len(els) + (IF had THEN 0 ELSE 1)
               /\ (kind = "janet" => ev.done = ~had)
         /\ gens' = Append(gens, ev.e) /\ late' = (IF late = 0 THEN 0 ELSE 2) /\ done' = FALSE /\ UNCHANGED <<nv, act>>
TBuild == /\ IsEvent("build") /\ kind' = kind /\ Adopt
          /\ Is(AsSet(els) \subseteq AsSet(els'))
          /\ Is(\A k \in DOMAIN els' : /\ InIdeal(gens, els'[k].lm) /\ ELe(els'[k].anc, els'[k].lm)
                                       /\ \E i \in DOMAIN gens : gens[i] = els'[k].anc)
          /\ Is(\A i \in DOMAIN gens : Divs(els', flags', gens[i]) # {})
          /\ Is(Complete(els', flags'))
          /\ done' = TRUE /\ late' = (IF late = 0 THEN 1 ELSE late) /\ UNCHANGED <<nv, gens, act>>
Unique == Strict(kind) \/ (kind \in {"lexGB", "deglexGB"} /\ late # 2)
Found(f, m, D) == IF f = <<>> THEN D = {}
                  ELSE \E k \in D : els[k].lm = Tail(f)
TFind == /\ IsEvent("find") /\ UNCHANGED tvars /\ Is(Found(ev.found, ev.e, Divs(els, flags, ev.e)))
TBox == /\ IsEvent("findbox") /\ UNCHANGED tvars
        /\ LET S == BoxSeq(nv, ev.b) IN Len(ev.found) = Len(S) /\
           Is(\A k \in DOMAIN S : LET D == Divs(els, flags, S[k]) IN
                /\ Found(ev.found[k], S[k], D)
                /\ Unique => Cardinality(D) <= 1
                /\ done => ((D # {}) = InIdeal(gens, S[k])))
(* the Hilbert polynomial of the completed set counts what is outside *)
THp == /\ IsEvent("hp") /\ UNCHANGED tvars /\ els # <<>>
       /\ LET U == Lms(els) IN
          /\ Is(ev.hp = HpOf(U, nv))
          /\ LET D == MaxDeg(U, Len(U)) IN Is((done /\ Small(D, nv)) => CountOk(gens, D, nv, ev.hp))
TEnd == IsEvent("end") /\ ev.live = 0 /\ els' = <<>> /\ UNCHANGED <<nv, kind, gens, act, done, late, flags>>
TraceInit == tick = 1 /\ nv = 1 /\ kind = "janet" /\ gens = <<>> /\ els = <<>> /\ done = FALSE /\ late = 0 /\ flags = <<>> /\ act = <<>>
TraceNext == TBegin \/ TPush \/ TBuild \/ TFind \/ TBox \/ THp \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tick>>
=============================================================================
