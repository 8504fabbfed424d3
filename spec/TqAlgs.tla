-------------------------------- MODULE TqAlgs --------------------------------
(* The other completion algorithms of GInv::JanetPolyInt as transition systems  *)
(* over the state of Tq (Q, T, ancestors, prolongations already made), modulo   *)
(* a small prime.  All share the queue sorted by leading monomials, of which a  *)
(* step examines the elements from the head on whose degree does not exceed     *)
(* that of the head; with lex and component-first orders these are not all the  *)
(* elements of the least degree.                                                *)
(*   TQ    enters one element of the least leading monomial                      *)
(*   TQ1   when several have the least leading monomial, they are reduced by one *)
(*         of them and everything is examined again                              *)
(*   TQ2   enters any of the elements of the degree of the head (the code takes  *)
(*         the one of least norm): the queue is then not what the others rely on *)
(*   Block settles a whole block of one degree and enters all of it              *)
EXTENDS Tq
CONSTANT Alg

(* the elements from the head of the queue on of degree at most that of the head *)
HeadDeg(S) == DegOf(Lm((CHOOSE x \in S : x \in MinLm(S)).f))
Batch(S) == LET d == HeadDeg(S) IN {x \in S : \A y \in S : LeadKey(y.f) >= LeadKey(x.f) => DegOf(Lm(y.f)) <= d}
(* of those, the ones of exactly the degree of the head, without a gap *)
Block(S) == LET d == HeadDeg(S) IN {x \in S : \A y \in S : LeadKey(y.f) >= LeadKey(x.f) => DegOf(Lm(y.f)) = d}
Examined(B, D, tails) ==
  TLCEval({y \in {[x EXCEPT !.f = LET h == NfHead(cx, x.f, D) IN IF tails /\ h # NoPoly THEN TailNf(h, D) ELSE h] : x \in B} : y.f # NoPoly})
(* an element entering T: what it was is forgotten when its leading monomial is another *)
Fresh(w) == IF Lm(w.f) = w.m THEN Elem(Monic(w.f), w.m, w.anc, w.done) ELSE Elem(Monic(w.f), Lm(w.f), Lm(w.f), {})
Insert(QQ, W, deg, lazy) ==
  LET T1 == TLCEval(T \cup {Fresh(w) : w \in W})
      D1 == Divisors(T1)
      T2 == TLCEval({[t EXCEPT !.f = TailNf(t.f, D1)] : t \in T1})
      r == IF lazy /\ T = {} THEN <<QQ, T2>> ELSE Prolong(QQ, T2, {t \in T2 : DegOf(t.m) <= deg})
  IN Q' = r[1] /\ T' = r[2] /\ UNCHANGED <<one, ended>>
Unit == one' = TRUE /\ Q' = {} /\ T' = {} /\ ended' = TRUE
HasConst(S) == ideal /\ \E y \in S : DegOf(Lm(y.f)) = 0
(* the others of a group with one leading monomial, reduced by w *)
ReducedBy(G, w) == LET g == Monic(w.f)  k == LeadKey(g) IN
  TLCEval({y \in {[x EXCEPT !.f = Axpy(x.f, x.f[k], 0, g)] : x \in G \ {w}} : y.f # NoPoly})

StepTQ(rest, red, deg) == \E w \in MinLm(red) : Insert(rest \cup (red \ {w}), {w}, deg, TRUE)
StepTQ1(rest, red, deg) ==
  LET G == MinLm(red) IN
  IF Cardinality(G) = 1 THEN Insert(rest \cup (red \ G), G, deg, TRUE)
  ELSE \E w \in G : Q' = TLCEval(rest \cup (red \ G) \cup {w} \cup ReducedBy(G, w)) /\ UNCHANGED <<T, one, ended>>
StepTQ2(rest, red, deg) == \E w \in Block(red) : Insert(rest \cup (red \ {w}), {w}, deg, TRUE)
(* the possible blocks, each with what goes back to the queue *)
RECURSIVE Settle(_, _)
Settle(S, back) ==
  LET blk == Block(S)
      out == TLCEval(back \cup (S \ blk))
      dup == {x \in blk : \E y \in blk : y # x /\ LeadKey(y.f) = LeadKey(x.f)}
  IN IF dup = {} THEN {<<blk, out>>}
     ELSE LET G == MinLm(dup) IN UNION {Settle(TLCEval((blk \ G) \cup {w} \cup ReducedBy(G, w)), out) : w \in G}
StepBlock(rest, red, deg) ==
  \E s \in Settle(red, {}) :
    IF HasConst(s[1]) THEN Unit ELSE Insert(rest \cup s[2], s[1], HeadDeg(s[1]), FALSE)

StepAlg ==
  /\ Q # {} /\ ~ended /\ ~one
  /\ LET batch == Batch(Q)
         deg == HeadDeg(Q)
         red == Examined(batch, Divisors(T), Alg \in {"TQ2", "Block"})
         rest == Q \ batch
     IN IF HasConst(red) THEN Unit
        ELSE IF red = {} THEN Q' = rest /\ UNCHANGED <<T, one, ended>>
        ELSE CASE Alg = "TQ" -> StepTQ(rest, red, deg)
               [] Alg = "TQ1" -> StepTQ1(rest, red, deg)
               [] Alg = "TQ2" -> StepTQ2(rest, red, deg)
               [] Alg = "Block" -> StepBlock(rest, red, deg)
  /\ UNCHANGED gens
NextAlg == Refill \/ StepAlg
SpecAlg == Init /\ [][NextAlg]_vars /\ WF_vars(NextAlg)
=============================================================================
