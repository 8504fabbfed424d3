-------------------------------- MODULE List --------------------------------
(* GInv::List (C15): lists as sequences, edited in place through iterators.   *)
(* An iterator stands at a gap: its position is the number of elements before *)
(* it.  A read-only iterator stands on an element (or past the end); it keeps *)
(* standing on that element through edits elsewhere, also when the element is *)
(* extracted and spliced into another list.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NL, NI, NC, MaxLen, Vals
VARIABLES lists, arena, its, cits, act
vars == <<lists, arena, its, cits, act>>
Is(p) == p = TRUE

Gone  == <<-1>>                       \* no list object
Lost  == <<>>                         \* iterator that may not be used
Live(d) == d \in DOMAIN lists /\ lists[d] # Gone
It(k)   == its[k] # Lost              \* usable iterator <<list, position>>
ItL(k)  == its[k][1]
ItP(k)  == its[k][2]
ItOn(k) == ItP(k) < Len(lists[ItL(k)])
CIn(j)   == cits[j] # Lost /\ cits[j][1] > 0           \* stands in a list <<list, position>>
CHeld(j) == cits[j] # Lost /\ cits[j][1] = 0           \* holds an extracted element <<0, value, arena>>
CEnd(j)  == cits[j] # Lost /\ cits[j][1] = -1          \* past the end <<-1>>
Rest(s, p) == SubSeq(s, p + 1, Len(s))

Begin(nl, ni, nc) == /\ lists' = [d \in 1..nl |-> Gone] /\ arena' = [d \in 1..nl |-> 0]
                     /\ its' = [k \in 1..ni |-> Lost] /\ cits' = [j \in 1..nc |-> Lost]

(* what an edit does to the iterators that are elsewhere *)
ItsIns(d, p) == [k \in DOMAIN its |-> IF It(k) /\ ItL(k) = d /\ ItP(k) > p THEN <<d, ItP(k) + 1>> ELSE its[k]]
CitsIns(c, d, p) == [j \in DOMAIN c |-> IF c[j] # Lost /\ c[j][1] = d /\ c[j][2] >= p THEN <<d, c[j][2] + 1>> ELSE c[j]]
ItsRem(d, p) == [k \in DOMAIN its |-> IF It(k) /\ ItL(k) = d /\ ItP(k) = p + 1 THEN Lost
                                     ELSE IF It(k) /\ ItL(k) = d /\ ItP(k) > p + 1 THEN <<d, ItP(k) - 1>> ELSE its[k]]
CitsRem(d, p, new) == [j \in DOMAIN cits |-> IF cits[j] # Lost /\ cits[j][1] = d /\ cits[j][2] = p THEN new
                                     ELSE IF cits[j] # Lost /\ cits[j][1] = d /\ cits[j][2] > p THEN <<d, cits[j][2] - 1>> ELSE cits[j]]
ItsKeepHead(d) == [k \in DOMAIN its |-> IF It(k) /\ ItL(k) = d /\ ItP(k) > 0 THEN Lost ELSE its[k]]
ItsDrop(t, d)  == [k \in DOMAIN t |-> IF t[k] # Lost /\ t[k][1] = d THEN Lost ELSE t[k]]
CitsDrop(c, d) == [j \in DOMAIN c |-> IF c[j] # Lost /\ c[j][1] = d THEN Lost ELSE c[j]]
CitsTo(c, a, d) == [j \in DOMAIN c |-> IF c[j] # Lost /\ c[j][1] = a THEN <<d, c[j][2]>> ELSE c[j]]
InsSeq(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
RemSeq(s, p)    == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))

New(d, ar) == /\ d \in DOMAIN lists /\ lists' = [lists EXCEPT ![d] = <<>>] /\ arena' = [arena EXCEPT ![d] = ar]
              /\ its' = ItsDrop(its, d) /\ cits' = CitsDrop(cits, d)
CopyC(d, a, ar) == /\ Live(a) /\ d # a /\ lists' = [lists EXCEPT ![d] = lists[a]] /\ arena' = [arena EXCEPT ![d] = ar]
                   /\ its' = ItsDrop(its, d) /\ cits' = CitsDrop(cits, d)
Move(d, a) ==   \* the elements themselves change hands
  /\ Live(a) /\ d # a /\ lists' = [lists EXCEPT ![d] = lists[a], ![a] = <<>>] /\ arena' = [arena EXCEPT ![d] = arena[a]]
  /\ cits' = CitsTo(CitsDrop(cits, d), a, d)
MoveC(d, a) == Move(d, a) /\ its' = ItsDrop(ItsKeepHead(a), d)
MoveA(d, a) == Live(d) /\ Move(d, a)
               /\ its' = [k \in DOMAIN its |-> IF It(k) /\ ItL(k) \in {d, a} /\ ItP(k) > 0 THEN Lost ELSE its[k]]
Assign(d, a) == /\ Live(d) /\ Live(a) /\ d # a /\ lists' = [lists EXCEPT ![d] = lists[a]] /\ arena' = arena
                /\ its' = ItsKeepHead(d) /\ cits' = CitsDrop(cits, d)
Swap(d, a) == /\ Live(d) /\ Live(a) /\ d # a
              /\ lists' = [lists EXCEPT ![d] = lists[a], ![a] = lists[d]]
              /\ arena' = [arena EXCEPT ![d] = arena[a], ![a] = arena[d]]
              /\ its' = [k \in DOMAIN its |-> IF It(k) /\ ItL(k) \in {d, a} /\ ItP(k) > 0 THEN Lost ELSE its[k]]
              /\ cits' = [j \in DOMAIN cits |-> IF cits[j] # Lost /\ cits[j][1] = a THEN <<d, cits[j][2]>>
                                               ELSE IF cits[j] # Lost /\ cits[j][1] = d THEN <<a, cits[j][2]>> ELSE cits[j]]
Clear(d) == /\ Live(d) /\ lists' = [lists EXCEPT ![d] = <<>>] /\ arena' = arena
            /\ its' = ItsKeepHead(d) /\ cits' = CitsDrop(cits, d)
Insert(d, p, v) == /\ lists' = [lists EXCEPT ![d] = InsSeq(lists[d], p, v)] /\ arena' = arena
                   /\ its' = ItsIns(d, p) /\ cits' = CitsIns(cits, d, p)
Remove(d, p, new) == /\ lists' = [lists EXCEPT ![d] = RemSeq(lists[d], p)] /\ arena' = arena
                     /\ its' = ItsRem(d, p) /\ cits' = CitsRem(d, p, new)
(* n elements at once in front of everything, and n steps at once *)
PushN(d, v, n) == /\ Live(d) /\ lists' = [lists EXCEPT ![d] = [j \in 1..n |-> v + n - j] \o lists[d]] /\ arena' = arena
                  /\ its' = [k \in DOMAIN its |-> IF It(k) /\ ItL(k) = d /\ ItP(k) > 0 THEN <<d, ItP(k) + n>> ELSE its[k]]
                  /\ cits' = [j \in DOMAIN cits |-> IF cits[j] # Lost /\ cits[j][1] = d THEN <<d, cits[j][2] + n>> ELSE cits[j]]
ItNextN(k, n) == It(k) /\ ItP(k) + n <= Len(lists[ItL(k)]) /\ its' = [its EXCEPT ![k] = <<ItL(k), ItP(k) + n>>] /\ UNCHANGED <<lists, arena, cits>>
Push(d, v) == Live(d) /\ Insert(d, 0, v)
Pop(d, v) == Live(d) /\ lists[d] # <<>> /\ v = lists[d][1] /\ Remove(d, 0, Lost)

ItBegin(k, a) == Live(a) /\ its' = [its EXCEPT ![k] = <<a, 0>>] /\ UNCHANGED <<lists, arena, cits>>
ItCopy(k, j)  == It(j) /\ its' = [its EXCEPT ![k] = its[j]] /\ UNCHANGED <<lists, arena, cits>>
ItNext(k)     == It(k) /\ ItOn(k) /\ its' = [its EXCEPT ![k] = <<ItL(k), ItP(k) + 1>>] /\ UNCHANGED <<lists, arena, cits>>
ItSet(k, v)   == It(k) /\ ItOn(k) /\ lists' = [lists EXCEPT ![ItL(k)][ItP(k) + 1] = v] /\ UNCHANGED <<arena, its, cits>>
ItIns(k, v)   == It(k) /\ Insert(ItL(k), ItP(k), v)
ItDel(k)      == It(k) /\ ItOn(k) /\ Remove(ItL(k), ItP(k), Lost)
ItClear(k)    == It(k) /\ ItP(k) = 0 /\ Clear(ItL(k))
Get(k, j)     == /\ It(k) /\ ItOn(k)
                 /\ LET h == <<0, lists[ItL(k)][ItP(k) + 1], arena[ItL(k)]>> IN
                    /\ lists' = [lists EXCEPT ![ItL(k)] = RemSeq(lists[ItL(k)], ItP(k))] /\ arena' = arena
                    /\ its' = ItsRem(ItL(k), ItP(k))
                    /\ cits' = [CitsRem(ItL(k), ItP(k), Lost) EXCEPT ![j] = h]
Splice(k, j)  == /\ It(k) /\ CHeld(j) /\ cits[j][3] = arena[ItL(k)]
                 /\ lists' = [lists EXCEPT ![ItL(k)] = InsSeq(lists[ItL(k)], ItP(k), cits[j][2])] /\ arena' = arena
                 /\ its' = ItsIns(ItL(k), ItP(k))
                 /\ cits' = [CitsIns(cits, ItL(k), ItP(k)) EXCEPT ![j] = <<ItL(k), ItP(k)>>]
OnOrEnd(d, p) == IF p < Len(lists[d]) THEN <<d, p>> ELSE <<-1>>
CFree(j)      == ~CHeld(j)                     \* an extracted element must not be forgotten
CBegin(j, a)  == CFree(j) /\ Live(a) /\ cits' = [cits EXCEPT ![j] = OnOrEnd(a, 0)] /\ UNCHANGED <<lists, arena, its>>
CFrom(j, k)   == CFree(j) /\ It(k) /\ cits' = [cits EXCEPT ![j] = OnOrEnd(ItL(k), ItP(k))] /\ UNCHANGED <<lists, arena, its>>
CNext(j)      == CIn(j) /\ cits' = [cits EXCEPT ![j] = OnOrEnd(cits[j][1], cits[j][2] + 1)] /\ UNCHANGED <<lists, arena, its>>
CSet(j, v)    == \/ CIn(j) /\ lists' = [lists EXCEPT ![cits[j][1]][cits[j][2] + 1] = v] /\ UNCHANGED <<arena, its, cits>>
                 \/ CHeld(j) /\ cits' = [cits EXCEPT ![j] = <<0, v, cits[j][3]>>] /\ UNCHANGED <<lists, arena, its>>
(* observations *)
RestI(k) == Rest(lists[ItL(k)], ItP(k))
RestC(j) == IF CIn(j) THEN Rest(lists[cits[j][1]], cits[j][2]) ELSE IF CHeld(j) THEN <<cits[j][2]>> ELSE <<>>

(* ------------------------------------------------- exhaustive configuration *)
Ls == 1..NL  Is_ == 1..NI  Cs == 1..NC
Init == /\ lists = [d \in Ls |-> <<>>] /\ arena = [d \in Ls |-> 0] /\ its = [k \in Is_ |-> Lost]
        /\ cits = [j \in Cs |-> Lost] /\ act = <<"begin">>
Next ==
  \/ \E d \in Ls : \/ Clear(d) /\ act' = <<"clear", d>>
                   \/ \E v \in Vals : Push(d, v) /\ act' = <<"push", d, v>>
                   \/ lists[d] # <<>> /\ Pop(d, lists[d][1]) /\ act' = <<"pop", d>>
                   \/ \E a \in Ls : \/ Swap(d, a) /\ d < a /\ act' = <<"swap", d, a>>
                                    \/ Assign(d, a) /\ act' = <<"assign", d, a>>
                                    \/ MoveA(d, a) /\ act' = <<"movea", d, a>>
                                    \/ MoveC(d, a) /\ act' = <<"movec", d, a>>
                                    \/ CopyC(d, a, 0) /\ act' = <<"copy", d, a, 0>>
                   \/ \E k \in Is_ : ItBegin(k, d) /\ act' = <<"ibegin", k, d>>
                   \/ \E j \in Cs : CBegin(j, d) /\ act' = <<"cbegin", j, d>>
  \/ \E k \in Is_ : \/ ItNext(k) /\ act' = <<"inext", k>>
                    \/ ItDel(k) /\ act' = <<"del", k>>
                    \/ ItClear(k) /\ act' = <<"iclear", k>>
                    \/ \E v \in Vals : ItIns(k, v) /\ act' = <<"ins", k, v>>
                    \/ \E v \in Vals : ItSet(k, v) /\ act' = <<"iset", k, v>>
                    \/ \E j \in Cs : CFree(j) /\ Get(k, j) /\ act' = <<"get", k, j>>
                    \/ \E j \in Cs : Splice(k, j) /\ act' = <<"splice", k, j>>
                    \/ \E j \in Cs : CFrom(j, k) /\ act' = <<"cfrom", j, k>>
                    \/ \E j \in Is_ : j # k /\ ItCopy(k, j) /\ act' = <<"icopy", k, j>>
  \/ \E j \in Cs : \/ CNext(j) /\ act' = <<"cnext", j>>
                   \/ \E v \in Vals : CSet(j, v) /\ act' = <<"cset", j, v>>
Spec == Init /\ [][Next]_vars
View == <<lists, its, cits>>
Bound == \A d \in Ls : Len(lists[d]) <= MaxLen
Emit == PrintT(<<"EDGE", ToJson(View), ToJson(act'), ToJson(View')>>)
(* --------------------------------------------------------------- properties *)
TypeOK == /\ \A d \in Ls : Live(d)
          /\ \A k \in Is_ : It(k) => ItL(k) \in Ls /\ ItP(k) \in 0..Len(lists[ItL(k)])
          /\ \A j \in Cs : CIn(j) => cits[j][1] \in Ls /\ cits[j][2] < Len(lists[cits[j][1]])
(* nothing is created or lost by moving elements about: the number of elements,
   the extracted ones included, changes only by an insertion, a removal or a copy *)
Total == LET RECURSIVE S(_, _)
             S(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + S(f, D \ {x})
         IN S([d \in Ls |-> Len(lists[d])], Ls) + Cardinality({j \in Cs : CHeld(j)})
Conserve == [][act'[1] \in {"swap", "get", "splice", "inext", "iset", "cset", "cnext", "ibegin", "cbegin", "cfrom", "icopy"} => Total' = Total]_vars
=============================================================================
