------------------------------- MODULE RBTrace ------------------------------
(* Trace validation of GInv::RBTree: a store of sets, each observed with the  *)
(* whole shape of its tree.  Any valid shape is accepted.                     *)
EXTENDS RBTree, TraceLib
VARIABLE sets
tvars == <<sets, tree, keys, act>>
NoTree == {-1}
Live(d) == d \in DOMAIN sets /\ sets[d] # NoTree
Put(d, S) == d \in DOMAIN sets /\ sets' = [sets EXCEPT ![d] = S]
ObsT(S, o) ==
  LET t == o[1]  s == InOrder(t) IN
  /\ ValidTree(t) /\ Balanced(t)
  /\ {s[j] : j \in 1..Len(s)} = S
  /\ o[2] = s /\ o[3] = Reverse(s)
  /\ o[4] = Cardinality(S) /\ o[5] = (S # {})
Obs(st) == Len(st) = Len(sets') /\ Is(\A d \in 1..Len(st) : IF sets'[d] = NoTree THEN st[d] = <<>> ELSE ObsT(sets'[d], st[d]))
Step(op, A) == IsEvent(op) /\ A /\ Obs(ev.st) /\ UNCHANGED vars
d_ == ev.d + 1
a_ == ev.a + 1
TBegin == IsEvent("begin") /\ sets' = [d \in 1..ev.nt |-> NoTree] /\ UNCHANGED vars
TMut ==
  \/ Step("new", Put(d_, {}))
  \/ Step("copy", Live(a_) /\ Put(d_, sets[a_]))
  \/ Step("movec", Live(a_) /\ d_ # a_ /\ sets' = [sets EXCEPT ![d_] = sets[a_], ![a_] = {}])
  \/ Step("assign", Live(d_) /\ Live(a_) /\ Put(d_, sets[a_]))
  \/ Step("swap", Live(d_) /\ Live(a_) /\ sets' = [sets EXCEPT ![d_] = sets[a_], ![a_] = sets[d_]])
  \/ Step("clear", Live(d_) /\ Put(d_, {}))
  \/ Step("ins", Live(d_) /\ ev.x \notin sets[d_] /\ Put(d_, sets[d_] \cup {ev.x}))
  \/ Step("rem", Live(d_) /\ ev.x \in sets[d_] /\ Put(d_, sets[d_] \ {ev.x}))
  \/ Step("inss", Live(d_) /\ Is(\A j \in 1..Len(ev.xs) : ev.xs[j] \notin sets[d_]) /\ Put(d_, sets[d_] \cup {ev.xs[j] : j \in 1..Len(ev.xs)}))
  \/ Step("rems", Live(d_) /\ Is(\A j \in 1..Len(ev.xs) : ev.xs[j] \in sets[d_]) /\ Put(d_, sets[d_] \ {ev.xs[j] : j \in 1..Len(ev.xs)}))
  \/ Step("remit", Live(d_) /\ ev.x \in sets[d_] /\ Put(d_, sets[d_] \ {ev.x}))
  \/ Step("remmin", Live(d_) /\ sets[d_] # {} /\ Put(d_, sets[d_] \ {MinOf(sets[d_])}))
  \/ Step("remmax", Live(d_) /\ sets[d_] # {} /\ Put(d_, sets[d_] \ {MaxOf(sets[d_])}))
TProbe == /\ IsEvent("probe") /\ Live(d_) /\ UNCHANGED tvars /\ Obs(ev.st)
          /\ LET S == sets[d_] IN
             /\ Is(\A j \in 1..Len(ev.p) : LET x == ev.p[j][1] IN ev.p[j] = <<x, Find(S, x), PrevOf(S, x), NextOf(S, x)>>)
             /\ ev.min = MinOf(S) /\ ev.max = MaxOf(S) /\ ev.mink = MinOf(S) /\ ev.maxk = MaxOf(S)
(* a picture (C28): every node with its key and colour, under every missing child a leaf *)
TPict == /\ IsEvent("pict") /\ Live(d_) /\ UNCHANGED tvars /\ Obs(ev.st) /\ ev.ok /\ ev.odd = 0
         /\ ev.trees = <<ev.st[d_][1]>> /\ ev.nodes = 2 * Cardinality(sets[d_]) + 1 /\ ev.edges = 2 * Cardinality(sets[d_])
TEnd == IsEvent("end") /\ ev.a = 0 /\ ev.b = 0 /\ sets' = [d \in DOMAIN sets |-> NoTree] /\ Obs(ev.st) /\ UNCHANGED vars
TraceInit == tick = 1 /\ sets = <<>> /\ tree = <<>> /\ keys = {} /\ act = <<>>
TraceNext == TBegin \/ TMut \/ TProbe \/ TPict \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tick>>
=============================================================================
