------------------------------- MODULE BMonom -------------------------------
(* A store of Boolean monomials (C20): each register is absent or a finite   *)
(* set of variables; every public operation of GInv::BMonom on the store.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxReg, VarSet             \* bounds of the exhaustive configuration
VARIABLES regs, act
vars == <<regs, act>>
Is(x) == x
None == <<>>
Some(S) == <<S>>
Live(k) == k \in 1..Len(regs) /\ regs[k] # None
Val(k) == regs[k][1]
Put(k, S) == k \in 1..Len(regs) /\ regs' = [regs EXCEPT ![k] = Some(S)]

Begin(nr) == regs' = [k \in 1..nr |-> None]
One(d) == Put(d, {})
VarOp(d, v) == Put(d, {v})
Copy(d, a) == Live(a) /\ Put(d, Val(a))
AddV(d, a, v) == Live(a) /\ Put(d, Val(a) \cup {v})
Prod(d, a, b) == Live(a) /\ Live(b) /\ Put(d, Val(a) \cup Val(b))
Assign(d, a) == Live(d) /\ Live(a) /\ d # a /\ Put(d, Val(a))
SwapB(d, a) == Live(d) /\ Live(a) /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = regs[d]]
DivB(d, a, b) == Live(d) /\ Live(a) /\ Live(b) /\ Is(Val(b) \subseteq Val(a)) /\ Put(d, Val(a) \ Val(b))
FreeB(d) == d \in 1..Len(regs) /\ regs' = [regs EXCEPT ![d] = None]

(* -------------------------------------------------------------- observations *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Down(S) == TLCEval([i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y > x}) = i - 1])
(* degree reverse lexicographic: at equal degree the set whose least own variable is the larger one *)
Cmp(x, y) ==
  LET dx == Cardinality(x)  dy == Cardinality(y) IN
  IF dx > dy THEN 1 ELSE IF dx < dy THEN -1 ELSE IF x = y THEN 0
  ELSE LET m == Least((x \cup y) \ (x \cap y)) IN IF m \in x THEN -1 ELSE 1
Query(a, b) ==
  LET x == Val(a)  y == Val(b) IN
  [cmp |-> Cmp(x, y), div |-> y \subseteq x, bool |-> x # {}, zero |-> x = {}, deg |-> Cardinality(x)]

(* ------------------------------------------------- exhaustive configuration *)
Rs == 1..MaxReg
Init == regs = [k \in Rs |-> None] /\ act = <<"begin">>
Next ==
  \/ \E d \in Rs : One(d) /\ act' = <<"one", d>>
  \/ \E d \in Rs, v \in VarSet : VarOp(d, v) /\ act' = <<"var", d, v>>
  \/ \E d, a \in Rs : \/ Copy(d, a) /\ act' = <<"copy", d, a>>
                      \/ Assign(d, a) /\ act' = <<"assign", d, a>>
                      \/ SwapB(d, a) /\ act' = <<"swap", d, a>>
                      \/ \E v \in VarSet : AddV(d, a, v) /\ act' = <<"addv", d, a, v>>
                      \/ \E b \in Rs : \/ Prod(d, a, b) /\ act' = <<"prod", d, a, b>>
                                       \/ DivB(d, a, b) /\ act' = <<"div", d, a, b>>
  \/ \E d \in Rs : FreeB(d) /\ Live(d) /\ act' = <<"free", d>>
Spec == Init /\ [][Next]_vars
Out(r) == [k \in 1..Len(r) |-> IF r[k] = None THEN <<>> ELSE <<Down(r[k][1])>>]
View == regs
Emit == PrintT(<<"EDGE", ToJson(Out(regs)), ToJson(act'), ToJson(Out(regs'))>>)

(* ---------------------------------------------------------------- properties *)
TypeOK == \A k \in Rs : regs[k] = None \/ regs[k][1] \subseteq VarSet
OrderLaws ==
  \A a, b \in Rs : Live(a) /\ Live(b) =>
    LET x == Val(a)  y == Val(b) IN
    /\ Cmp(x, y) = -Cmp(y, x)
    /\ (Cmp(x, y) = 0) = (x = y)
    /\ y = {} => Cmp(x, y) >= 0
    /\ (x \subseteq y) => Cmp(x, y) <= 0
    /\ \A v \in VarSet : (v \notin x /\ v \notin y) => Cmp(x \cup {v}, y \cup {v}) = Cmp(x, y)
(* the order is transitive on the whole power set *)
Transitive == \A x, y, z \in SUBSET VarSet : (Cmp(x, y) > 0 /\ Cmp(y, z) > 0) => Cmp(x, z) > 0
ASSUME Transitive
(* the quotient is the least set whose product with the divisor gives the dividend *)
Algebra ==
  \A a, b \in Rs : Live(a) /\ Live(b) =>
    LET x == Val(a)  y == Val(b) IN
    y \subseteq x => /\ (x \ y) \cup y = x
                     /\ \A z \in SUBSET VarSet : z \cup y = x => (x \ y) \subseteq z
=============================================================================
