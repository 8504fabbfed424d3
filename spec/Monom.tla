-------------------------------- MODULE Monom -------------------------------
(* A store of monomial registers and every public operation of GInv::Monom    *)
(* on it (C08), with the observations (comparisons, divisibility, degrees of  *)
(* gcd and lcm, orders) as operators over the store (C08, C09).               *)
EXTENDS Mono, FiniteSets, TLC, Json

CONSTANTS MaxReg, MaxVar, MaxPos, MaxDeg      \* bounds of the exhaustive configuration
VARIABLES nv, regs, act                       \* number of variables, registers, last action

vars == <<nv, regs, act>>
PosSet == {-1} \cup 1..MaxPos
None == <<>>
Live(k) == k \in 1..Len(regs) /\ regs[k] # None
Put(k, m) == /\ k \in 1..Len(regs)
             /\ regs' = [regs EXCEPT ![k] = m]
             /\ nv' = nv

Begin(nr, n) == nv' = n /\ regs' = [k \in 1..nr |-> None]

ZeroM(d, pos)    == Put(d, Unit(nv, pos))
VarOp(d, v, pos) == Put(d, VarM(nv, v, pos))
SetM(d, pos, e)  == Put(d, <<pos>> \o e)
Copy(d, a)       == Live(a) /\ Put(d, regs[a])
Prol(d, v, a)    == Live(a) /\ Put(d, MProl(v, regs[a]))
Prod(d, a, b)    == Live(a) /\ Live(b) /\ Is(CanMul(regs[a], regs[b])) /\ Put(d, MMul(regs[a], regs[b]))
Power(d, a, x)   == Live(a) /\ Put(d, MPow(regs[a], x))
Move(d, a)       == /\ Live(a) /\ d # a /\ nv' = nv
                    /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = None]
Assign(d, a)     == Live(d) /\ Live(a) /\ Put(d, regs[a])
SwapM(d, a)      == /\ Live(d) /\ Live(a) /\ d # a /\ nv' = nv
                    /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = regs[d]]
MultM(d, a)      == Live(d) /\ Live(a) /\ Is(CanMul(regs[d], regs[a])) /\ Put(d, MMul(regs[d], regs[a]))
MultV(d, v, a)   == Live(d) /\ Live(a) /\ Put(d, MProl(v, regs[a]))
DivM(d, a)       == Live(d) /\ Live(a) /\ Is(MDivides(regs[a], regs[d])) /\ Put(d, MQuo(regs[d], regs[a]))
SetPos(d, p)     == Live(d) /\ Put(d, MSetPos(regs[d], p))
IsPerm(p)        == {p[i] : i \in 1..Len(p)} = 0..(Len(p) - 1)
Permute(d, a, p) == /\ Live(d) /\ Live(a) /\ IsPerm(p) /\ Len(p) = nv
                    /\ Put(d, [i \in 1..(nv + 1) |-> IF i = 1 THEN regs[d][1] ELSE regs[a][p[i - 1] + 2]])
FreeM(d)         == d \in 1..Len(regs) /\ Put(d, None)

(* ------------------------------------------------------------ observations *)
QPair(a, b) ==
  LET x == regs[a]  y == regs[b] IN
  [eq |-> x = y, ne |-> x # y, div |-> MDivides(y, x),
   lex |-> Lex(x, y), deglex |-> DegLex(x, y), alex |-> ALex(x, y),
   bool |-> Deg(x) > 0, zero |-> Deg(x) = 0, size |-> NV(x)]
QGL(a, b) == [gcd |-> Deg(MGcdE(regs[a], regs[b])), lcm |-> Deg(MLcmE(regs[a], regs[b]))]
Q3(a, b, c) == LET x == regs[a]  y == MMul(regs[b], regs[c]) IN
  [lex |-> Lex(x, y), deglex |-> DegLex(x, y), alex |-> ALex(x, y)]
QOrd(ord, a, b) == OrdCmp(ord, regs[a], regs[b])

(* ------------------------------------------------- exhaustive configuration *)
Init == /\ nv \in 1..MaxVar /\ regs = [k \in 1..MaxReg |-> None] /\ act = <<"begin", nv>>
Rs == 1..MaxReg
Next ==
  \/ \E d \in Rs, p \in PosSet : ZeroM(d, p) /\ act' = <<"zero", d, p>>
  \/ \E d \in Rs, v \in 1..nv, p \in PosSet : VarOp(d, v, p) /\ act' = <<"var", d, v, p>>
  \/ \E d, a \in Rs : \/ Copy(d, a) /\ act' = <<"copy", d, a>>
                      \/ Move(d, a) /\ act' = <<"movec", d, a>>
                      \/ Move(d, a) /\ Live(d) /\ act' = <<"moveassign", d, a>>
                      \/ Assign(d, a) /\ act' = <<"assign", d, a>>
                      \/ SwapM(d, a) /\ act' = <<"swap", d, a>>
                      \/ MultM(d, a) /\ act' = <<"mult", d, a>>
                      \/ DivM(d, a) /\ act' = <<"div", d, a>>
                      \/ \E v \in 1..nv : Prol(d, v, a) /\ act' = <<"prol", d, v, a>>
                      \/ \E v \in 1..nv : MultV(d, v, a) /\ d # a /\ act' = <<"multv", d, v, a>>
                      \/ \E x \in 0..2 : Power(d, a, x) /\ act' = <<"power", d, a, x>>
                      \/ \E b \in Rs : Prod(d, a, b) /\ act' = <<"prod", d, a, b>>
                      \/ \E b \in Rs : Prod(d, a, b) /\ act' = <<"prodm", d, a, b>>
                      \/ Copy(d, a) /\ act' = <<"gc", d, a>>
  \/ \E d \in Rs, p \in PosSet : SetPos(d, p) /\ act' = <<"setpos", d, p>>
  \/ \E d \in Rs : FreeM(d) /\ Live(d) /\ act' = <<"free", d>>
Spec == Init /\ [][Next]_vars
View == <<nv, regs>>
Bound == \A k \in Rs : regs[k] = None \/ Deg(regs[k]) <= MaxDeg
(* every transition of the bounded model is printed and replayed in the code *)
Emit == PrintT(<<"EDGE", ToJson(<<nv, regs>>), ToJson(act'), ToJson(<<nv', regs'>>)>>)

(* ---------------------------------------------------------------- properties *)
TypeOK == \A k \in Rs : regs[k] = None \/ (Len(regs[k]) = nv + 1 /\ regs[k][1] >= -1 /\ \A i \in 2..(nv + 1) : regs[k][i] >= 0)
Boxes(n) == {<<p>> \o e : p \in PosSet, e \in [1..n -> 0..2]}
(* the algebra the operators must satisfy, over every pair of registers *)
Algebra ==
  \A a, b \in Rs : Live(a) /\ Live(b) =>
    LET x == regs[a]  y == regs[b] IN
    /\ CanMul(x, y) => /\ MMul(x, y) = MMul(y, x)
                       /\ Deg(MMul(x, y)) = Deg(x) + Deg(y)
                       /\ MDivides(MSetPos(y, -1), MMul(x, y))
    /\ MDivides(y, x) => MMul(MQuo(x, y), y) = x
    /\ (MDivides(y, x) /\ MDivides(x, y)) => x = y
    /\ Deg(MGcdE(x, y)) + Deg(MLcmE(x, y)) = Deg(x) + Deg(y)
Orders == {17, 18, 20, 33, 34, 36}
(* C09 on the definitions: total, antisymmetric, compatible with products *)
OrderLaws ==
  \A a, b \in Rs : Live(a) /\ Live(b) =>
    LET x == regs[a]  y == regs[b] IN
    \A ord \in Orders :
      /\ OrdCmp(ord, x, y) = -OrdCmp(ord, y, x)
      /\ (OrdCmp(ord, x, y) = 0) = (x = y)
      /\ \A v \in 1..nv : OrdCmp(ord, MProl(v, x), MProl(v, y)) = OrdCmp(ord, x, y)
      /\ (ord % 16 # 4 /\ Pos(x) = Pos(y) /\ ExpsLe(x, y)) => OrdCmp(ord, x, y) <= 0
Transitive ==
  \A a, b, c \in Rs : (Live(a) /\ Live(b) /\ Live(c)) =>
    \A ord \in Orders : (OrdCmp(ord, regs[a], regs[b]) > 0 /\ OrdCmp(ord, regs[b], regs[c]) > 0) => OrdCmp(ord, regs[a], regs[c]) > 0
=============================================================================
