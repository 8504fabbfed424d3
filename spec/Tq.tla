---------------------------------- MODULE Tq ---------------------------------
(* The completion algorithm itself (GInv::JanetPolyInt::algorithmTQ) as a      *)
(* transition system, modulo a small prime: Q holds what is to be examined, T  *)
(* the basis under construction.  A step examines the elements of Q of the     *)
(* lowest degree, enters one of the least leading monomial into T and creates  *)
(* the prolongations not excused by a criterion.  Checked for every system of  *)
(* a bounded universe and every choice among equals: T and Q never leave the   *)
(* generated module, every run ends, and ends in a Janet basis.                *)
EXTENDS ModPoly, FiniteSetsExt, Json
Iv == INSTANCE Invol
CONSTANTS Nv, Ord, Comps, Deg, Coefs, Terms, Count,   \* the universe of systems
          Product                                          \* "ideals", "always" or "never" : the use of the product criterion
VARIABLES gens, Q, T, one, ended
vars == <<gens, Q, T, one, ended>>
Is(p) == TRUE = p
cx == MkCtx(Nv, Ord)
ideal == \A f \in gens : \A k \in DOMAIN f : PosOfKey(cx, k) = -1

Monos == {<<p - 1>> \o e : p \in Comps, e \in {x \in [1..Nv -> 0..Deg] : Iv!EDeg(x) <= Deg}}
Keys == {KeyOf(cx, m) : m \in Monos}
(* up to a factor: the leading coefficient is one *)
Polys == UNION {{f \in [S -> Coefs] : f[CHOOSE k \in S : \A j \in S : k <= j] = 1} : S \in (UNION {kSubset(t, Keys) : t \in 1..Terms})}
Lm(f) == LET k == LeadKey(f) IN TLCEval(<<PosOfKey(cx, k)>> \o ExpsOfKey(cx, k))
DegOf(m) == Iv!EDeg(Tail(m))
Elem(f, m, anc, done) == [f |-> f, m |-> m, anc |-> anc, done |-> done]

(* the elements of T with their nonmultiplicative variables, as divisors *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : LeadKey(z.f) <= LeadKey(y.f) IN Append(SeqOf(S \ {x}), x)
Flags(TT, m) == LET S == SelectSeq(SeqOf(TT), LAMBDA t : t.m[1] = m[1]) IN Iv!JNMs(TLCEval([j \in DOMAIN S |-> Tail(S[j].m)]), Tail(m))
Divisors(TT) == LET S == SeqOf(TT) IN TLCEval([j \in DOMAIN S |-> JanetDivisorOf(cx, S[j].f, Flags(TT, S[j].m))])
TailNf(f, D) == LET k == LeadKey(f) IN NfAll(cx, TLCEval([x \in DOMAIN f \ {k} |-> f[x]]), D, (k :> f[k]))

(* -------------------------------------------------------------- prolongations *)
Shift(m, v) == TLCEval([m EXCEPT ![v + 1] = @ + 1])
Excused(TT, D, t, v) ==
  LET m == Shift(t.m, v)
      j == DivisorAt(cx, D, KeyOf(cx, m))
  IN j # 0 /\ LET d == CHOOSE x \in TT : x.m = D[j].m IN
        \/ /\ (Product = "always" \/ (Product = "ideals" /\ ideal))
           /\ DegOf(m) >= DegOf(t.anc) + DegOf(d.anc)
        \/ DegOf(m) > LcmDeg(t.anc, d.anc)
Prolonged(t, v) == Elem(LET s == -cx.w[v] IN TLCEval([k \in {x + s : x \in DOMAIN t.f} |-> t.f[k - s]]), Shift(t.m, v), t.anc, {})
(* the new Q and T after the prolongations of the elements of P0 *)
Prolong(QQ, TT, P0) ==
  LET D == Divisors(TT)
      fl == TLCEval([t \in P0 |-> Flags(TT, t.m)])
      new(t) == {v \in 1..Nv : fl[t][v] = 1 /\ v \notin t.done}
      made == UNION {{Prolonged(t, v) : v \in {x \in new(t) : ~Excused(TT, D, t, x)}} : t \in P0}
  IN <<TLCEval(QQ \cup made), TLCEval((TT \ P0) \cup {[t EXCEPT !.done = @ \cup new(t)] : t \in P0})>>

Init == /\ gens \in kSubset(Count, Polys)
        /\ Q = {Elem(f, Lm(f), Lm(f), {}) : f \in gens} /\ T = {} /\ one = FALSE /\ ended = FALSE
(* Q is empty: all that is not yet prolonged, or the end *)
Refill == /\ Q = {} /\ ~ended /\ ~one
          /\ LET r == Prolong(Q, T, T) IN Q' = r[1] /\ T' = r[2] /\ ended' = (r[1] = {})
          /\ UNCHANGED <<gens, one>>
MinLm(S) == {x \in S : \A y \in S : LeadKey(y.f) <= LeadKey(x.f)}
Step ==
  /\ Q # {} /\ ~ended /\ ~one
  /\ LET low == CHOOSE d \in {DegOf(Lm(x.f)) : x \in Q} : \A y \in Q : DegOf(Lm(y.f)) >= d
         batch == {x \in Q : DegOf(Lm(x.f)) <= low}
         D == Divisors(T)
         red == TLCEval({y \in {[x EXCEPT !.f = NfHead(cx, x.f, D)] : x \in batch} : y.f # NoPoly})
         rest == Q \ batch
     IN IF ideal /\ \E y \in red : DegOf(Lm(y.f)) = 0
        THEN one' = TRUE /\ Q' = {} /\ T' = {} /\ ended' = TRUE
        ELSE IF red = {} THEN Q' = rest /\ UNCHANGED <<T, one, ended>>
        ELSE \E w \in MinLm(red) :
               LET f == Monic(TailNf(w.f, D))
                   n == IF Lm(f) = w.m THEN Elem(f, w.m, w.anc, w.done) ELSE Elem(f, Lm(f), Lm(f), {})
                   T1 == TLCEval(T \cup {n})
                   D1 == Divisors(T1)
                   T2 == TLCEval({[t EXCEPT !.f = TailNf(t.f, D1)] : t \in T1})
                   r == Prolong(rest \cup (red \ {w}), T2, {t \in T2 : DegOf(t.m) <= low})
               IN Q' = r[1] /\ T' = r[2] /\ UNCHANGED <<one, ended>>
  /\ UNCHANGED gens
Next == Refill \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------------ properties *)
SetSeq(S) == LET R == SeqOf({[f |-> x] : x \in S}) IN TLCEval([j \in DOMAIN R |-> R[j].f])
Sound == AllIn(cx, SetSeq(gens), SetSeq({t.f : t \in T} \cup {q.f : q \in Q}), ideal)
UnitPoly == TLCEval([k \in {KeyOf(cx, TLCEval([v \in 1..(Nv + 1) |-> IF v = 1 THEN -1 ELSE 0]))} |-> 1])
Distinct == \A a, b \in T : a.m = b.m => a = b
LeadsRight == \A t \in T : Lm(t.f) = t.m /\ Iv!ELe(Tail(t.anc), Tail(t.m))
JanetBasis ==
  LET D == Divisors(T) IN
  /\ \A f \in gens : NfHead(cx, f, D) = NoPoly
  /\ \A j \in DOMAIN D : \A v \in 1..Nv : D[j].nm[v] = 1 => NfHead(cx, Prolonged([f |-> D[j].f, m |-> D[j].m, anc |-> D[j].m], v).f, D) = NoPoly
  /\ \A t \in T : TailNf(t.f, D) = t.f
Right == ended => IF one THEN AllIn(cx, SetSeq(gens), <<UnitPoly>>, TRUE)
                  ELSE JanetBasis /\ (ideal => \A t \in T : DegOf(t.m) > 0)
(* at the end the elements that are their own ancestors are a Groebner basis *)
Divs(a, b) == a[1] = b[1] /\ Iv!ELe(Tail(a), Tail(b))
Marks == (ended /\ ~one) => /\ \A t \in T : Divs(t.anc, t.m) /\ \E s \in T : s.m = t.anc
                            /\ \A t \in T : \E s \in T : s.anc = s.m /\ Divs(s.m, t.m)
Ends == <>ended
(* every system of the universe is also completed by the code, and compared *)
Terms0(f) == LET R == SeqOf({[f |-> k :> f[k]] : k \in DOMAIN f}) IN
             TLCEval([j \in DOMAIN R |-> LET k == LeadKey(R[j].f) IN <<Lm(R[j].f), IF R[j].f[k] * 2 > P THEN R[j].f[k] - P ELSE R[j].f[k]>>])
Emit == (T = {} /\ ~ended) => PrintT(<<"EDGE", ToJson(TLCEval([j \in 1..Cardinality(gens) |-> Terms0(SetSeq(gens)[j])])), "", "">>)
=============================================================================
