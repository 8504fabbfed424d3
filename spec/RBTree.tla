------------------------------- MODULE RBTree -------------------------------
(* GInv::RBTree (C14).  The abstract object is a set of keys; the concrete    *)
(* one is a binary tree with coloured nodes.  The red-black algorithms are    *)
(* specified on the concrete tree and TLC checks that they implement the set  *)
(* operations and keep the red-black rules in every reachable tree.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxKey
VARIABLES tree, keys, act
vars == <<tree, keys, act>>
Is(p) == p = TRUE

(* a tree: <<>> or <<red?, key, left, right>> with red? 0 or 1 *)
RECURSIVE InOrder(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(t[3]) \o <<t[2]>> \o InOrder(t[4])
RECURSIVE KeysOf(_)
KeysOf(t) == IF t = <<>> THEN {} ELSE {t[2]} \cup KeysOf(t[3]) \cup KeysOf(t[4])
RECURSIVE SizeOf(_)
SizeOf(t) == IF t = <<>> THEN 0 ELSE 1 + SizeOf(t[3]) + SizeOf(t[4])
Red(t) == t # <<>> /\ t[1] = 1
(* black height, -1 when the rules are broken somewhere below *)
RECURSIVE BH(_)
BH(t) == IF t = <<>> THEN 0
         ELSE LET l == BH(t[3])  r == BH(t[4]) IN
              IF l < 0 \/ l # r \/ t[1] \notin {0, 1} \/ (t[1] = 1 /\ (Red(t[3]) \/ Red(t[4]))) THEN -1
              ELSE l + 1 - t[1]
RECURSIVE Height(_)
Height(t) == IF t = <<>> THEN 0 ELSE LET l == Height(t[3])  r == Height(t[4]) IN 1 + IF l > r THEN l ELSE r
RECURSIVE Log2(_)          \* ceiling of the binary logarithm
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)
Increasing(s) == \A j \in 2..Len(s) : s[j - 1] < s[j]
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
ValidTree(t) == ~Red(t) /\ BH(t) >= 0 /\ Increasing(InOrder(t))
Balanced(t) == Height(t) <= 2 * Log2(SizeOf(t) + 1)

(* --------------------------------------------------- the set's observations *)
MinOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
Find(S, x) == IF x \in S THEN x ELSE -1
PrevOf(S, x) == MaxOf({y \in S : y < x})
NextOf(S, x) == MinOf({y \in S : y > x})

(* ------------------------------------------- the algorithms, on linked nodes *)
(* nodes are named by slots 1..MaxKey+1; 0 is nil *)
Slot == 1..(MaxKey + 1)
(* m = [root, k, c, l, r, p] *)
RotL(m, x) ==
  LET y == m.r[x]  b == m.l[y]  px == m.p[x] IN
  [m EXCEPT !.r[x] = b, !.l[y] = x,
            !.p = [s \in DOMAIN m.p |-> IF s = y THEN px ELSE IF s = x THEN y ELSE IF b # 0 /\ s = b THEN x ELSE m.p[s]],
            !.root = IF px = 0 THEN y ELSE m.root]
RotLP(m, x) == LET px == m.p[x]  y == m.r[x]  n == RotL(m, x) IN
  IF px = 0 THEN n ELSE IF m.l[px] = x THEN [n EXCEPT !.l[px] = y] ELSE [n EXCEPT !.r[px] = y]
Flip(m) == [m EXCEPT !.l = m.r, !.r = m.l]
RotRP(m, x) == Flip(RotLP(Flip(m), x))
RECURSIVE InsFix(_, _)
InsFix(m, x) ==
  IF x = m.root \/ m.c[m.p[x]] = 0 THEN [m EXCEPT !.c[m.root] = 0]
  ELSE LET q == m.p[x]  g == m.p[q]
           left == m.l[g] = q
           M == IF left THEN m ELSE Flip(m)                       \* look at it from the left
           y == M.r[g]
           Back(n) == IF left THEN n ELSE Flip(n)
       IN IF y # 0 /\ M.c[y] = 1
          THEN InsFix(Back([M EXCEPT !.c[q] = 0, !.c[y] = 0, !.c[g] = 1]), g)
          ELSE LET N  == IF x = M.r[q] THEN RotLP(M, q) ELSE M
                   x2 == IF x = M.r[q] THEN q ELSE x
                   q2 == N.p[x2]
                   g2 == N.p[q2]
               IN InsFix(Back(RotRP([N EXCEPT !.c[q2] = 0, !.c[g2] = 1], g2)), x2)
RECURSIVE DelFix(_, _, _)
DelFix(m, x, xp) ==
  IF x = m.root \/ (x # 0 /\ m.c[x] = 1) THEN (IF x = 0 THEN m ELSE [m EXCEPT !.c[x] = 0])
  ELSE LET left == m.l[xp] = x
           M == IF left THEN m ELSE Flip(m)
           Back(n) == IF left THEN n ELSE Flip(n)
           w0 == M.r[xp]
           N == IF M.c[w0] = 1 THEN RotLP([M EXCEPT !.c[w0] = 0, !.c[xp] = 1], xp) ELSE M
           w == N.r[xp]
           RedS(n, s) == s # 0 /\ n.c[s] = 1
       IN IF ~RedS(N, N.l[w]) /\ ~RedS(N, N.r[w])
          THEN DelFix(Back([N EXCEPT !.c[w] = 1]), xp, N.p[xp])
          ELSE LET O == IF ~RedS(N, N.r[w]) THEN RotRP([N EXCEPT !.c[N.l[w]] = 0, !.c[w] = 1], w) ELSE N
                   v == O.r[xp]
                   Q == [O EXCEPT !.c = [s \in DOMAIN O.c |-> IF s = v THEN O.c[xp] ELSE IF s = xp THEN 0
                                                              ELSE IF s = O.r[v] THEN 0 ELSE O.c[s]]]
                   R == Back(RotLP(Q, xp))
               IN IF x = 0 THEN R ELSE [R EXCEPT !.c[x] = 0]
(* linked form of a tree and back *)
RECURSIVE ToTree(_, _)
ToTree(m, s) == IF s = 0 THEN <<>> ELSE <<m.c[s], m.k[s], ToTree(m, m.l[s]), ToTree(m, m.r[s])>>
RECURSIVE Sub(_, _)         \* subtree with key x
Sub(t, x) == IF t = <<>> THEN t ELSE IF t[2] = x THEN t ELSE IF x < t[2] THEN Sub(t[3], x) ELSE Sub(t[4], x)
RECURSIVE ParentKey(_, _, _)
ParentKey(t, x, up) == IF t[2] = x THEN up ELSE IF x < t[2] THEN ParentKey(t[3], x, t[2]) ELSE ParentKey(t[4], x, t[2])
KeyOf(t) == IF t = <<>> THEN 0 ELSE t[2]
FromTree(t) ==              \* the slot of a node is its key
  LET K == KeysOf(t) IN
  [root |-> KeyOf(t), k |-> [s \in Slot |-> s], c |-> [s \in Slot |-> IF s \in K THEN Sub(t, s)[1] ELSE 0],
   l |-> [s \in Slot |-> IF s \in K THEN KeyOf(Sub(t, s)[3]) ELSE 0], r |-> [s \in Slot |-> IF s \in K THEN KeyOf(Sub(t, s)[4]) ELSE 0],
   p |-> [s \in Slot |-> IF s \in K THEN ParentKey(t, s, 0) ELSE 0]]
RECURSIVE Leaf(_, _, _)
Leaf(m, s, x) == IF x < s THEN (IF m.l[s] = 0 THEN s ELSE Leaf(m, m.l[s], x)) ELSE (IF m.r[s] = 0 THEN s ELSE Leaf(m, m.r[s], x))
RbInsert(t, x) ==
  LET m == FromTree(t) IN
  IF t = <<>> THEN <<0, x, <<>>, <<>>>>
  ELSE LET q == Leaf(m, m.root, x)
           n == IF x < q THEN [m EXCEPT !.l[q] = x, !.p[x] = q, !.c[x] = 1] ELSE [m EXCEPT !.r[q] = x, !.p[x] = q, !.c[x] = 1]
           f == InsFix(n, x)
       IN ToTree(f, f.root)
RECURSIVE LeftMost(_, _)
LeftMost(m, s) == IF m.l[s] = 0 THEN s ELSE LeftMost(m, m.l[s])
RbDelete(t, z) ==
  LET m0 == FromTree(t)
      two == m0.l[z] # 0 /\ m0.r[z] # 0
      y == IF two THEN LeftMost(m0, m0.r[z]) ELSE z
      m == IF two THEN [m0 EXCEPT !.k[z] = y] ELSE m0          \* the successor's key moves up
      x == IF m.l[y] # 0 THEN m.l[y] ELSE m.r[y]
      yp == m.p[y]
      a == IF x # 0 THEN [m EXCEPT !.p[x] = yp] ELSE m
      b == IF yp = 0 THEN [a EXCEPT !.root = x] ELSE IF m.l[yp] = y THEN [a EXCEPT !.l[yp] = x] ELSE [a EXCEPT !.r[yp] = x]
      f == IF m.c[y] = 0 THEN DelFix(b, x, yp) ELSE b
  IN ToTree(f, f.root)

(* ------------------------------------------------- exhaustive configuration *)
Init == tree = <<>> /\ keys = {} /\ act = <<"begin">>
Ins(x) == x \notin keys /\ keys' = keys \cup {x} /\ tree' = TLCEval(RbInsert(tree, x))
Rem(x) == x \in keys /\ keys' = keys \ {x} /\ tree' = TLCEval(RbDelete(tree, x))
Next == \/ \E x \in 1..MaxKey : Ins(x) /\ act' = <<"ins", x>>
        \/ \E x \in 1..MaxKey : Rem(x) /\ act' = <<"rem", x>>
Spec == Init /\ [][Next]_vars
View == <<tree, keys>>
Emit == PrintT(<<"EDGE", ToJson(tree), ToJson(act'), ToJson(tree')>>)
(* --------------------------------------------------------------- properties *)
Refines == KeysOf(tree) = keys /\ SizeOf(tree) = Cardinality(keys)
Rules == ValidTree(tree)
Depth == Balanced(tree)
Nearest == \A x \in 0..(MaxKey + 1) :
   /\ PrevOf(keys, x) = -1 \/ (PrevOf(keys, x) \in keys /\ PrevOf(keys, x) < x /\ ~\E y \in keys : PrevOf(keys, x) < y /\ y < x)
   /\ NextOf(keys, x) = -1 \/ (NextOf(keys, x) \in keys /\ NextOf(keys, x) > x /\ ~\E y \in keys : NextOf(keys, x) > y /\ y > x)
=============================================================================
