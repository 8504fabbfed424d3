-------------------------------- MODULE Plain -------------------------------
(* GInv::Allocator in the configuration without arenas (C12, C11): every       *)
(* block is the system's own; an allocator only counts what it gave out, and   *)
(* what it reserved is what is used.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NA, Reqs, MaxBlk
VARIABLES arenas, blks, curr, peak, act
vars == <<arenas, blks, curr, peak, act>>
Is(p) == p = TRUE
Gone == -1
Cost(n) == n + 16                                \* a request, and the system's own account of it
Live(d) == d \in DOMAIN arenas /\ arenas[d] # Gone
MaxI(x, y) == IF x > y THEN x ELSE y
Held(k) == k \in DOMAIN blks /\ blks[k].live
New(d) == /\ d \in DOMAIN arenas /\ arenas' = [arenas EXCEPT ![d] = 0] /\ UNCHANGED <<blks, curr, peak>>
CopyA(d, a) == Live(a) /\ d # a /\ New(d)        \* a copied allocator is an empty one
Swap(d, a) == /\ Live(d) /\ Live(a) /\ d # a /\ arenas' = [arenas EXCEPT ![d] = arenas[a], ![a] = arenas[d]]
              /\ blks' = [k \in DOMAIN blks |-> IF blks[k].ar = d THEN [blks[k] EXCEPT !.ar = a] ELSE IF blks[k].ar = a THEN [blks[k] EXCEPT !.ar = d] ELSE blks[k]]
              /\ UNCHANGED <<curr, peak>>
Get(d, n, pat, where) ==
  /\ Live(d) /\ n > 0
  /\ arenas' = [arenas EXCEPT ![d] = @ + Cost(n)]
  /\ curr' = curr + Cost(n) /\ peak' = MaxI(peak, curr + Cost(n))
  /\ blks' = Append(blks, [ar |-> d, n |-> n, pat |-> pat, live |-> TRUE, at |-> where])
Free(k) == /\ Held(k) /\ arenas' = [arenas EXCEPT ![blks[k].ar] = @ - Cost(blks[k].n)] /\ curr' = curr - Cost(blks[k].n)
           /\ blks' = [blks EXCEPT ![k].live = FALSE] /\ UNCHANGED peak
Write(k, pat) == Held(k) /\ blks' = [blks EXCEPT ![k].pat = pat] /\ UNCHANGED <<arenas, curr, peak>>
(* the owner gives every block back, then the allocator *)
Drop(d) == /\ Live(d) /\ arenas' = [arenas EXCEPT ![d] = Gone] /\ curr' = curr - arenas[d]
           /\ blks' = [k \in DOMAIN blks |-> IF blks[k].ar = d THEN [blks[k] EXCEPT !.live = FALSE, !.ar = 0] ELSE blks[k]]
           /\ UNCHANGED peak
(* with a limit set at curr + room, does a request of n bytes end the process? *)
MustEnd(d, n, room) == curr + room > 0 /\ Cost(n) > room
MayEnd(d, n, room)  == curr + room > 0 /\ MaxI(peak, curr + Cost(n)) > curr + room

(* ------------------------------------------------- exhaustive configuration *)
As == 1..NA
Init == arenas = [d \in As |-> 0] /\ blks = <<>> /\ curr = 0 /\ peak = 0 /\ act = <<"begin">>
Next == \E d \in As :
  \/ \E n \in Reqs : Live(d) /\ Get(d, n, 7, 0) /\ act' = <<"get", d, 0, n, 7>>
  \/ ~Live(d) /\ New(d) /\ act' = <<"new", d>>
  \/ Drop(d) /\ act' = <<"drop", d>>
  \/ \E a \in As : \/ d < a /\ Swap(d, a) /\ act' = <<"swap", d, a>>
                   \/ ~Live(d) /\ CopyA(d, a) /\ act' = <<"copy", d, a>>
  \/ \E k \in DOMAIN blks : \/ Free(k) /\ act' = <<"free", k>>
                            \/ blks[k].pat = 7 /\ Write(k, 9) /\ act' = <<"write", k, 9>>
Spec == Init /\ [][Next]_vars
View == <<arenas, blks, curr, peak>>
Bound == Len(blks) <= MaxBlk
Emit == PrintT(<<"EDGE", ToJson(View), ToJson(act'), ToJson(View')>>)
(* --------------------------------------------------------------- properties *)
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumS(f, S \ {x})
SizeExact == \A d \in As : Live(d) => arenas[d] = SumS([k \in DOMAIN blks |-> Cost(blks[k].n)], {k \in DOMAIN blks : blks[k].live /\ blks[k].ar = d})
CurrExact == curr = SumS(arenas, {d \in As : Live(d)})
PeakOK == peak >= curr
Idle == ({k \in DOMAIN blks : blks[k].live} = {}) => curr = 0     \* nothing held, nothing counted
Stable == [][act'[1] # "write" => \A k \in DOMAIN blks : (blks[k].live /\ blks'[k].live) => blks'[k].pat = blks[k].pat /\ blks'[k].at = blks[k].at]_vars
=============================================================================
