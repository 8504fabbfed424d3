-------------------------------- MODULE Pict ---------------------------------
(* What the drawing functions show (C28).  A Janet tree is drawn as chains:   *)
(* the nodes of one variable in ascending degree, joined by solid edges, and  *)
(* from a node a dotted edge to the chain of the next variable.  An element   *)
(* is shown as a table where its last variable is reached: its exponents      *)
(* (bold for a generator), its marks; any other node shows its degree.        *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
LOCAL SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RestZero(m, v) == \A k \in (v + 1)..Len(m) : m[k] = 0
(* lms: the monomials; tab: the table of each; K: those that go through here *)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(lms, tab, K, v) ==
  IF K = {} THEN <<>>
  ELSE LET d == SetMin({lms[k][v] : k \in K})
           here == {k \in K : lms[k][v] = d}
           ends == {k \in here : RestZero(lms[k], v)}
           sub == TLCEval(ChainFrom(lms, tab, here \ ends, v + 1))
           node == IF ends = {} THEN <<0, ToString(d), <<>>, sub>> ELSE <<1, "", tab[CHOOSE k \in ends : TRUE], sub>>
       IN <<node>> \o ChainFrom(lms, tab, K \ here, v)
RECURSIVE NodesIn(_)
NodesIn(c) == IF c = <<>> THEN 0 ELSE 1 + NodesIn(c[1][4]) + NodesIn(Tail(c))
Degrees(m, gen) == [v \in DOMAIN m |-> IF gen THEN "<B>" \o ToString(m[v]) \o "</B>" ELSE ToString(m[v])]
Marks(f, sign) == [v \in DOMAIN f |-> IF f[v] = 1 THEN sign ELSE ""]
(* the drawn trees, in any order *)
Same(trees, expected) == Len(trees) = Cardinality(expected) /\ {trees[j] : j \in DOMAIN trees} = expected
=============================================================================
