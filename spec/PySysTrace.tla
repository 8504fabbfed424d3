----------------------------- MODULE PySysTrace ------------------------------
(* Logs of the completions of the pure Python package, against the same        *)
(* definition of a Janet basis; every component of the declared module counts  *)
(* in the Hilbert polynomial.                                                   *)
EXTENDS SysTrace
VARIABLE comps                 \* number of declared components, 0: the ring itself
pyvars == <<vars, comps>>
Range0 == IF comps = 0 THEN -1..(-1) ELSE 0..(comps - 1)
(* the elements marked as the Groebner basis: those whose leading monomial no  *)
(* other leading monomial divides                                               *)
Minimal(B) == {B[i].m : i \in {x \in DOMAIN B : \A j \in DOMAIN B : j = x \/ ~(B[j].m[1] = B[x].m[1] /\ Iv!ELe(Tail(B[j].m), Tail(B[x].m)))}}
PyHilbertOf(B, n) == Hc!HP!HSub(Hc!HP!HMul(Hc!HP!HBin(n, n, n), IF comps = 0 THEN 1 ELSE comps), ConesFrom(B, n, Len(B)))
RECURSIVE OutsideOf(_, _, _, _)
OutsideOf(B, n, S, D) == IF S = {} THEN [k \in 1..(D + 1) |-> 0]
                         ELSE LET p == CHOOSE x \in S : TRUE IN AddSeq(Hc!Outside(Lms(B, p), n, D), OutsideOf(B, n, S \ {p}, D))
PyHilbertCounts(B, n, hp) ==
  LET D == TopDeg(B)  c == TLCEval(OutsideOf(B, n, Range0, D + n))
  IN \A s \in D..(D + n) : Hc!HP!HEval(hp, s) = Hc!HP!RInt(Hc!SumTo(c, s + 1))
Same == comps' = comps
PBegin == TBegin /\ comps' = ev.K
PBuild == /\ TBuild /\ Same
          /\ Is({ev.gb[i] : i \in DOMAIN ev.gb} = Minimal(basis')) /\ Len(ev.gb) = Cardinality({ev.gb[i] : i \in DOMAIN ev.gb})
(* exact: p less its normal form is in the ideal, without a factor *)
Scaled(f, d) == TLCEval([k \in DOMAIN f |-> (f[k] * BigMod(d)) % P])
PNfq == /\ IsEvent("nfq") /\ UNCHANGED pyvars
        /\ Is(/\ Z!CanonList(ev.r, ord) /\ Irreducible(Divisors, ev.r)
              /\ OfTerms(Cx, ev.r) = Nonzero(Scaled(NormalForm(Cx, Divisors, ev.p), ev.den)))
(* the element found, or the product of it that has the monomial itself for its leading one *)
PFind == /\ TFind /\ Same
         /\ Is(IF ev.found = <<>> THEN ev.g = <<>>
            ELSE IF ev.kind = "janet" THEN \E i \in DOMAIN Divisors : Divisors[i].m = ev.found /\ Is(one \/ ev.g = Divisors[i].t)
            ELSE /\ ev.g # <<>> /\ Z!CanonList(ev.g, ord) /\ ev.g[1][1] = ev.m /\ Primitive(ev.g)
                 /\ \A j \in 2..Len(ev.g) : ev.g[j][1][1] = ev.m[1] => JDivisors(Divisors, ev.g[j][1]) = {}
                 /\ NfHead(Cx, OfTerms(Cx, ev.g), ModBasis(Cx, Divisors)) = NoPoly)
PHp == /\ IsEvent("hp") /\ UNCHANGED pyvars
       /\ ev.has = (~one /\ basis # <<>>)
       /\ ev.has => /\ Is(ev.hp = PyHilbertOf(basis, nv))
                    /\ Is(Hc!Small(TopDeg(basis), nv) => PyHilbertCounts(basis, nv, ev.hp))
PEnd == /\ IsEvent("end") /\ gens' = <<>> /\ basis' = <<>> /\ one' = FALSE /\ ready' = TRUE /\ UNCHANGED <<nv, ord, comps>>
PyTraceInit == TraceInit /\ comps = 0
PyTraceNext == PBegin \/ (TPush /\ Same) \/ PBuild \/ (TNf /\ Same) \/ PNfq \/ PFind \/ PHp \/ PEnd
PyTraceSpec == PyTraceInit /\ [][PyTraceNext]_<<pyvars, tick>>
=============================================================================
