------------------------------ MODULE Completion -----------------------------
(* Completion of a finite set of monomials to an involutive one (C05), for     *)
(* Janet division (GInv::MJanet) and the divisions by an order                 *)
(* (GInv::MCompletion): pushes, then products by nonmultiplicative variables   *)
(* without an involutive divisor are added, in any order, until none is left.  *)
EXTENDS Invol, Json
Mn == INSTANCE Mono
Is(p) == TRUE = p
Sgn(x) == Mn!Sign(x)
CONSTANTS N, Box, MaxPush, MaxElem, KindSet
VARIABLES nv, kind, gens, els, act      \* els: sequence of [lm, anc]
vars == <<nv, kind, gens, els, act>>

M(e) == <<-1>> \o e
(* the orders offered: of the monomials, or first of their ancestors *)
CmpOf(kd, x, y) ==
  CASE kd = "lex" -> Mn!Lex(M(x.lm), M(y.lm))
    [] kd = "deglex" -> Mn!DegLex(M(x.lm), M(y.lm))
    [] kd = "lexGB" -> LET r == Mn!Lex(M(x.anc), M(y.anc)) IN IF r # 0 THEN r ELSE Mn!Lex(M(x.lm), M(y.lm))
    [] kd = "deglexGB" -> LET r == Mn!DegLex(M(x.anc), M(y.anc)) IN IF r # 0 THEN r ELSE Mn!DegLex(M(x.lm), M(y.lm))
    [] kd = "GB" -> LET r == Sgn(EDeg(y.anc) - EDeg(x.anc)) IN IF r # 0 THEN r ELSE Mn!Lex(M(x.lm), M(y.lm))
    (* the antigraded order is no well-order: its lookups are specified, not its completion *)
    [] kd = "alex" -> Mn!ALex(M(x.lm), M(y.lm))
    [] kd = "alexGB" -> LET r == Mn!ALex(M(x.anc), M(y.anc)) IN IF r # 0 THEN r ELSE Mn!ALex(M(x.lm), M(y.lm))
FirstOver(w, u, v) == w[v] > u[v] /\ \A k \in 1..(v - 1) : w[k] <= u[k]
Flag(kd, E, k, v) ==
  IF kd = "janet" THEN \E j \in DOMAIN E : E[j].lm[v] > E[k].lm[v] /\ SamePrefix(E[j].lm, E[k].lm, v)
  ELSE \E j \in DOMAIN E : FirstOver(E[j].lm, E[k].lm, v) /\ CmpOf(kd, E[j], E[k]) > 0
FlagsOf(kd, E) == TLCEval([k \in DOMAIN E |-> TLCEval([v \in 1..Len(E[k].lm) |-> IF Flag(kd, E, k, v) THEN 1 ELSE 0])])
Divs(E, F, m) == {k \in DOMAIN E : InvDiv(E[k].lm, F[k], m)}
Lms(E) == TLCEval([k \in DOMAIN E |-> E[k].lm])
Complete(E, F) == \A k \in DOMAIN E : \A v \in DOMAIN E[k].lm : F[k][v] = 1 => Divs(E, F, EProl(E[k].lm, v)) # {}
(* an element equal in the order is not taken twice *)
Present(kd, E, x) == IF kd = "janet" THEN Divs(E, FlagsOf(kd, E), x.lm) # {} ELSE \E k \in DOMAIN E : CmpOf(kd, E[k], x) = 0
Push(m) == LET x == [lm |-> m, anc |-> m] IN
           /\ gens' = Append(gens, m)
           /\ els' = IF Present(kind, els, x) THEN els ELSE Append(els, x)
           /\ UNCHANGED <<nv, kind>>
(* the divisions that make the divisor unique whatever was pushed *)
Strict(kd) == kd \in {"janet", "lex", "deglex"}

(* ------------------------------------------------ bounded design-level model *)
VARIABLES done
mvars == <<vars, done>>
Init == /\ nv \in 1..N /\ kind \in KindSet /\ gens = <<>> /\ els = <<>> /\ done = FALSE /\ act = <<"begin", nv>>
MPush == /\ Len(gens) < MaxPush /\ ~done /\ \E m \in [1..nv -> 0..Box] : Push(m)
         /\ act' = <<>> /\ done' = done
MStart == gens # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED vars
MProl == /\ done /\ LET F == FlagsOf(kind, els) IN
            \E k \in DOMAIN els, v \in 1..nv :
               /\ F[k][v] = 1 /\ Divs(els, F, EProl(els[k].lm, v)) = {}
               /\ els' = Append(els, [lm |-> EProl(els[k].lm, v), anc |-> els[k].anc])
         /\ UNCHANGED <<nv, kind, gens, act, done>>
Next == MPush \/ MStart \/ MProl
Spec == Init /\ [][Next]_mvars
(* the order of the sequence does not matter to what follows *)
View == <<nv, kind, done, {gens[i] : i \in DOMAIN gens}, {els[k] : k \in DOMAIN els}>>
Bounded == Len(els) <= MaxElem          \* the completion terminates: never reached
Probes == [1..nv -> 0..(Box + 2)]
InsideIdeal == \A k \in DOMAIN els : InIdeal(gens, els[k].lm) /\ ELe(els[k].anc, els[k].lm) /\ \E i \in DOMAIN gens : gens[i] = els[k].anc
Result == done => LET F == FlagsOf(kind, els) IN Complete(els, F) =>
   \A m \in Probes : LET c == Cardinality(Divs(els, F, m)) IN
      IF ~InIdeal(gens, m) THEN c = 0
      ELSE IF kind = "GB" THEN c >= 1 ELSE c = 1
=============================================================================
