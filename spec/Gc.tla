---------------------------------- MODULE Gc ---------------------------------
(* Values that own an arena (GInv::GC<T>, GCPolyInt): copying, collecting and   *)
(* destroying them (C11).  Contents are opaque: an operation on the value may    *)
(* change it, its bytes in use and its reserved bytes; nothing else may.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES regs, curr, act
vars == <<regs, curr, act>>
CONSTANTS NR, Vals, Sizes, Page
Is(p) == p = TRUE
None == [alloc |-> -1]
Held(d) == d \in DOMAIN regs /\ regs[d] # None
RECURSIVE Total(_, _)
Total(r, k) == IF k = 0 THEN 0 ELSE (IF r[k] = None THEN 0 ELSE r[k].alloc) + Total(r, k - 1)
(* bytes in use fit the reserved ones, and an empty value uses none *)
Sane(x) == x.used >= 0 /\ x.used <= x.alloc /\ (x.empty => x.used = 0)
(* worth collecting: more than a third of the reserved memory is idle *)
Due(x) == x.alloc > 4096 /\ 2 * x.alloc > 3 * x.used
Same(x, y) == x.val = y.val /\ x.empty = y.empty
(* y is a copy of x in an arena of its own; tight: made by copying, nothing left behind *)
CopyOf(y, x) == Sane(y) /\ Same(x, y) /\ y.tight /\ y.used <= x.used /\ (x.tight => y.used = x.used /\ y.alloc <= x.alloc)
Put(d, x) == /\ regs' = [regs EXCEPT ![d] = x]
             /\ curr' = Total(regs', Len(regs'))
Changes(d, x) == Held(d) /\ Sane(x) /\ ~x.tight /\ x.alloc >= regs[d].alloc /\ Put(d, x)
New(d, x) == d \in DOMAIN regs /\ Sane(x) /\ ~x.tight /\ Put(d, x)
Copy(d, a, x) == Held(a) /\ d \in DOMAIN regs /\ CopyOf(x, regs[a]) /\ Put(d, x)
Assign(d, a, x) == Held(d) /\ Held(a) /\ Sane(x) /\ ~x.tight /\ Same(x, regs[a]) /\ x.alloc >= regs[d].alloc /\ Put(d, x)
Swap(d, a) == Held(d) /\ Held(a) /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = regs[d]] /\ curr' = curr
Collect(d, x) == /\ Held(d)
                 /\ IF Due(regs[d]) THEN CopyOf(x, regs[d]) ELSE x = regs[d]
                 /\ Put(d, x)
Drop(d) == Held(d) /\ Put(d, None)

(* ------------------------------------------------- exhaustive configuration *)
(* the bytes a copy needs depend on the value alone *)
Need(v) == IF v = 0 THEN 0 ELSE 1000 * v
Round(u, a) == IF u <= a THEN a ELSE a + Page
Shapes(d) == {[val |-> v, empty |-> v = 0, used |-> u, alloc |-> Round(u, IF Held(d) THEN regs[d].alloc ELSE 0), tight |-> FALSE] :
               v \in Vals, u \in Sizes}
Possible(x) == Sane(x) /\ x.used >= Need(x.val)
CopyShape(v) == [val |-> v, empty |-> v = 0, used |-> Need(v), alloc |-> Round(Need(v), 0), tight |-> TRUE]
Init == regs = [d \in 1..NR |-> None] /\ curr = 0 /\ act = <<"begin">>
Next == \E d \in 1..NR :
  \/ ~Held(d) /\ New(d, [val |-> 0, empty |-> TRUE, used |-> 0, alloc |-> 0, tight |-> FALSE]) /\ act' = <<"new", d>>
  \/ \E x \in Shapes(d) : Possible(x) /\ x.alloc <= 3 * Page /\ Changes(d, x) /\ act' = <<"mut", d>>
  \/ \E a \in 1..NR : \/ Held(a) /\ a # d /\ Copy(d, a, CopyShape(regs[a].val)) /\ act' = <<"copy", d, a>>
                      \/ a # d /\ Swap(d, a) /\ act' = <<"swap", d, a>>
  \/ Held(d) /\ Collect(d, IF Due(regs[d]) THEN CopyShape(regs[d].val) ELSE regs[d]) /\ act' = <<"collect", d>>
  \/ Drop(d) /\ act' = <<"drop", d>>
Spec == Init /\ [][Next]_vars
View == <<regs, curr>>
Counted == curr = Total(regs, Len(regs)) /\ \A d \in DOMAIN regs : Held(d) => Sane(regs[d])
CollectKeeps == [][act'[1] = "collect" => \A d \in DOMAIN regs : Held(d) => Held(d)' /\ Same(regs[d], regs'[d]) /\ regs'[d].used <= regs[d].used]_vars
CollectEnds == \A d \in DOMAIN regs : Held(d) /\ regs[d].tight /\ Due(regs[d]) => CopyOf(CopyShape(regs[d].val), regs[d])
=============================================================================
