-------------------------------- MODULE Arena -------------------------------
(* GInv::Allocator (C12, C11): arenas that hand out blocks from pages, and    *)
(* the process-wide counters.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NA, Page, Reqs, MaxBlk
VARIABLES page, arenas, blks, curr, peak, act
vars == <<page, arenas, blks, curr, peak, act>>
Is(p) == p = TRUE
NoArena == [alloc |-> -1]
Round(n) == (n \div 16 + 1) * 16                 \* what a request of n bytes uses
PageFor(n) == ((n + page) \div page) * page      \* size of a new page that takes n bytes
Fresh == [alloc |-> 0, size |-> 0, top |-> 0, used |-> 0, node |-> 0]
Live(d) == d \in DOMAIN arenas /\ arenas[d] # NoArena
MaxI(x, y) == IF x > y THEN x ELSE y
NeedsPage(d, n) == arenas[d].used + Round(n) > arenas[d].top
Extra(d, n) == IF NeedsPage(d, n) THEN PageFor(Round(n)) ELSE 0     \* newly reserved by the request
New(d) == /\ d \in DOMAIN arenas /\ arenas' = [arenas EXCEPT ![d] = Fresh] /\ UNCHANGED <<page, blks, curr, peak>>
CopyA(d, a) == /\ Live(a) /\ d # a /\ d \in DOMAIN arenas    \* a copied arena is an empty one with a page of its own
               /\ arenas' = [arenas EXCEPT ![d] = [alloc |-> page, size |-> 0, top |-> page, used |-> 0, node |-> 1]]
               /\ curr' = curr + page /\ peak' = MaxI(peak, curr + page) /\ UNCHANGED <<page, blks>>
Swap(d, a) == /\ Live(d) /\ Live(a) /\ d # a /\ arenas' = [arenas EXCEPT ![d] = arenas[a], ![a] = arenas[d]]
              /\ blks' = [k \in DOMAIN blks |-> IF blks[k].ar = d THEN [blks[k] EXCEPT !.ar = a] ELSE IF blks[k].ar = a THEN [blks[k] EXCEPT !.ar = d] ELSE blks[k]]
              /\ UNCHANGED <<page, curr, peak>>
(* where: what is known of the place of the block *)
Get(d, n, pat, where) ==
  /\ Live(d) /\ n > 0
  /\ LET A == arenas[d]  x == Extra(d, n)  r == Round(n) IN
     /\ arenas' = [arenas EXCEPT ![d] = [alloc |-> A.alloc + x, size |-> A.size + r, top |-> IF x > 0 THEN x ELSE A.top,
                                        used |-> IF x > 0 THEN r ELSE A.used + r, node |-> IF x > 0 THEN A.node + 1 ELSE A.node]]
     /\ curr' = curr + x /\ peak' = MaxI(peak, curr + x)
     /\ blks' = Append(blks, [ar |-> d, n |-> n, pat |-> pat, live |-> TRUE, at |-> where])
     /\ page' = page
Place(d, n) == IF NeedsPage(d, n) THEN <<arenas[d].node + 1, 0>> ELSE <<arenas[d].node, arenas[d].used>>
Held(k) == k \in DOMAIN blks /\ blks[k].live
Free(k) == /\ Held(k) /\ arenas' = [arenas EXCEPT ![blks[k].ar].size = @ - Round(blks[k].n)]
           /\ blks' = [blks EXCEPT ![k].live = FALSE] /\ UNCHANGED <<page, curr, peak>>
Write(k, pat) == Held(k) /\ blks' = [blks EXCEPT ![k].pat = pat] /\ UNCHANGED <<page, arenas, curr, peak>>
(* the owner gives every block back, then the arena *)
Drop(d) == /\ Live(d) /\ arenas' = [arenas EXCEPT ![d] = NoArena] /\ curr' = curr - arenas[d].alloc
           /\ blks' = [k \in DOMAIN blks |-> IF blks[k].ar = d THEN [blks[k] EXCEPT !.live = FALSE, !.ar = 0] ELSE blks[k]]
           /\ UNCHANGED <<page, peak>>
(* with a limit set at curr + room, does a request of n bytes end the process? *)
MustEnd(d, n, room) == Extra(d, n) > 0 /\ curr + room > 0 /\ curr + Extra(d, n) > curr + room
MayEnd(d, n, room)  == Extra(d, n) > 0 /\ curr + room > 0 /\ MaxI(peak, curr + Extra(d, n)) > curr + room

(* ------------------------------------------------- exhaustive configuration *)
As == 1..NA
Init == /\ page = Page /\ arenas = [d \in As |-> Fresh] /\ blks = <<>> /\ curr = 0 /\ peak = 0 /\ act = <<"begin">>
Next == \E d \in As :
  \/ \E n \in Reqs : Live(d) /\ Get(d, n, 7, Place(d, n)) /\ act' = <<"get", d, 0, n, 7>>
  \/ ~Live(d) /\ New(d) /\ act' = <<"new", d>>
  \/ Drop(d) /\ act' = <<"drop", d>>
  \/ \E a \in As : \/ d < a /\ Swap(d, a) /\ act' = <<"swap", d, a>>
                   \/ ~Live(d) /\ CopyA(d, a) /\ act' = <<"copy", d, a>>
  \/ \E k \in DOMAIN blks : \/ Free(k) /\ act' = <<"free", k>>
                            \/ blks[k].pat = 7 /\ Write(k, 9) /\ act' = <<"write", k, 9>>
Spec == Init /\ [][Next]_vars
View == <<arenas, blks, curr, peak>>
Bound == Len(blks) <= MaxBlk /\ curr <= 6 * Page
Emit == PrintT(<<"EDGE", ToJson(View), ToJson(act'), ToJson(View')>>)
(* --------------------------------------------------------------- properties *)
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumS(f, S \ {x})
SizeExact == \A d \in As : Live(d) => arenas[d].size = SumS([k \in DOMAIN blks |-> Round(blks[k].n)], {k \in DOMAIN blks : blks[k].live /\ blks[k].ar = d})
CurrExact == curr = SumS([d \in As |-> IF Live(d) THEN arenas[d].alloc ELSE 0], As)
PeakOK == peak >= curr
Inside == \A d \in As : Live(d) => arenas[d].used <= arenas[d].top /\ arenas[d].top <= arenas[d].alloc
Disjoint == \A j, k \in DOMAIN blks : (j # k /\ blks[j].ar = blks[k].ar /\ blks[j].ar # 0 /\ blks[j].at[1] = blks[k].at[1]) =>
               blks[j].at[2] + blks[j].n <= blks[k].at[2] \/ blks[k].at[2] + blks[k].n <= blks[j].at[2]
Aligned == \A k \in DOMAIN blks : blks[k].at[2] % 16 = 0
Stable == [][act'[1] # "write" => \A k \in DOMAIN blks : (blks[k].live /\ blks'[k].live) => blks'[k].pat = blks[k].pat /\ blks'[k].at = blks[k].at]_vars
=============================================================================
