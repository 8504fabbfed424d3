-------------------------------- MODULE Stack -------------------------------
(* GInv::Stack (C16): a store of last-in first-out sequences with a capacity  *)
(* that is only a reservation.                                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NS, MaxDeep, Vals, Caps
VARIABLES stacks, cap, act
vars == <<stacks, cap, act>>
Is(p) == p = TRUE
NoStack == <<-1>>
Live(d) == d \in DOMAIN stacks /\ stacks[d] # NoStack
Put(d, s, c) == d \in DOMAIN stacks /\ stacks' = [stacks EXCEPT ![d] = s] /\ cap' = [cap EXCEPT ![d] = c]
Max(x, y) == IF x > y THEN x ELSE y
Grow(d, n) == IF n <= cap[d] THEN cap[d] ELSE n      \* any capacity from n on would do
New(d, c)     == Put(d, <<>>, c)
CopyC(d, a)   == Live(a) /\ Put(d, stacks[a], Len(stacks[a]))
Assign(d, a)  == Live(d) /\ Live(a) /\ d # a /\ Put(d, stacks[a], Grow(d, Len(stacks[a])))
Swap(d, a)    == /\ Live(d) /\ Live(a) /\ stacks' = [stacks EXCEPT ![d] = stacks[a], ![a] = stacks[d]]
                 /\ cap' = [cap EXCEPT ![d] = cap[a], ![a] = cap[d]]
Push(d, v)    == Live(d) /\ Put(d, Append(stacks[d], v), Grow(d, Len(stacks[d]) + 1))
PushN(d, v, n) == Live(d) /\ Put(d, stacks[d] \o [j \in 1..n |-> v + j - 1], Grow(d, Len(stacks[d]) + n))
Pop(d)        == Live(d) /\ stacks[d] # <<>> /\ Put(d, SubSeq(stacks[d], 1, Len(stacks[d]) - 1), cap[d])
PopN(d, n)    == Live(d) /\ Len(stacks[d]) >= n /\ Put(d, SubSeq(stacks[d], 1, Len(stacks[d]) - n), cap[d])
Reset(d)      == Live(d) /\ Put(d, <<>>, cap[d])
Ss == 1..NS
Init == stacks = [d \in Ss |-> <<>>] /\ cap = [d \in Ss |-> 1] /\ act = <<"begin">>
Next == \E d \in Ss :
  \/ Pop(d) /\ act' = <<"pop", d>>
  \/ Reset(d) /\ act' = <<"reset", d>>
  \/ \E c \in Caps : New(d, c) /\ act' = <<"new", d, c, 0>>
  \/ \E v \in Vals : Push(d, v) /\ act' = <<"push", d, v>>
  \/ \E a \in Ss : \/ a # d /\ CopyC(d, a) /\ act' = <<"copy", d, a, 0>>
                   \/ a # d /\ Assign(d, a) /\ act' = <<"assign", d, a>>
                   \/ d < a /\ Swap(d, a) /\ act' = <<"swap", d, a>>
Spec == Init /\ [][Next]_vars
View == <<stacks, cap>>
Bound == \A d \in Ss : Len(stacks[d]) <= MaxDeep
Emit == PrintT(<<"EDGE", ToJson(View), ToJson(act'), ToJson(View')>>)
Fits == \A d \in Ss : Len(stacks[d]) <= cap[d]
(* last in, first out: popping undoes pushing *)
Lifo == [][act'[1] = "push" => LET d == act'[2] IN SubSeq(stacks'[d], 1, Len(stacks'[d]) - 1) = stacks[d] /\ stacks'[d][Len(stacks'[d])] = act'[3]]_vars
=============================================================================
