------------------------------- MODULE PyMonom -------------------------------
(* The monomials of the pure Python package (C22): immutable values, so the    *)
(* store is names bound to values of Monom.tla.  Components are counted so     *)
(* that the greater number is the greater component, the ring (-1) the least.  *)
EXTENDS Monom
VARIABLES ord
pyvars == <<vars, ord>>

PyCmp(x, y) == OrdCmp(ord, x, y)
(* within one component, or with the ring *)
Compatible(x, y) == Pos(x) = -1 \/ Pos(y) = -1 \/ Pos(x) = Pos(y)
PLcm(x, y) == TLCEval([k \in 1..Len(x) |-> IF x[k] > y[k] THEN x[k] ELSE y[k]])
PGcd(x, y) == MGcdE(x, y)
LcmOp(d, a, b) == Live(a) /\ Live(b) /\ Is(Compatible(regs[a], regs[b])) /\ Put(d, PLcm(regs[a], regs[b]))
GcdOp(d, a, b) == Live(a) /\ Live(b) /\ Is(Compatible(regs[a], regs[b])) /\ Put(d, PGcd(regs[a], regs[b]))
DivOp(d, a, b) == Live(a) /\ Live(b) /\ Is(MDivides(regs[b], regs[a])) /\ Put(d, MQuo(regs[a], regs[b]))
PowOp(d, a, x) == Live(a) /\ Is(Pos(regs[a]) = -1) /\ Put(d, MPow(regs[a], x))

(* the variables of a monomial one by one, and every monomial of a degree *)
RECURSIVE ExpandFrom(_, _)
ExpandFrom(m, v) == IF v > NV(m) THEN <<>> ELSE [k \in 1..E(m, v) |-> v - 1] \o ExpandFrom(m, v + 1)
RECURSIVE OfDegree(_, _)                     \* exponent vectors of n variables of degree d
OfDegree(n, d) == IF n = 1 THEN {<<d>>} ELSE UNION {{<<k>> \o e : e \in OfDegree(n - 1, d - k)} : k \in 0..d}
Gradus(d, pos) == {<<pos>> \o e : e \in OfDegree(nv, d)}
(* the first variable whose exponent is less *)
NonMult(x, y) == CHOOSE v \in 1..NV(x) : E(x, v) < E(y, v) /\ \A u \in 1..(v - 1) : E(x, u) >= E(y, u)

(* ------------------------------------------------- exhaustive configuration *)
PyInit == Init /\ ord = 18
PyNext == /\ ord' = ord
          /\ \/ \E d \in Rs, p \in {-1, 0} : ZeroM(d, p) /\ act' = <<"zero", d, p>>
             \/ \E d \in Rs, v \in 1..nv : VarOp(d, v, -1) /\ act' = <<"var", d, v>>
             \/ \E d, a \in Rs : \/ Copy(d, a) /\ act' = <<"copy", d, a>>
                                 \/ \E v \in 1..nv : Prol(d, v, a) /\ act' = <<"prol", d, v, a>>
                                 \/ \E x \in 0..2 : PowOp(d, a, x) /\ act' = <<"power", d, a, x>>
                                 \/ \E b \in Rs : \/ Prod(d, a, b) /\ act' = <<"prod", d, a, b>>
                                                  \/ DivOp(d, a, b) /\ act' = <<"cdiv", d, a, b>>
                                                  \/ LcmOp(d, a, b) /\ act' = <<"lcm", d, a, b>>
                                                  \/ GcdOp(d, a, b) /\ act' = <<"gcd", d, a, b>>
PySpec == PyInit /\ [][PyNext]_pyvars
(* the lattice the operators form within one component *)
Lattice ==
  \A a, b \in Rs : Live(a) /\ Live(b) =>
    LET x == regs[a]  y == regs[b] IN
    Compatible(x, y) =>
      /\ MDivides(x, PLcm(x, y)) /\ MDivides(y, PLcm(x, y)) /\ PLcm(x, y) = PLcm(y, x)
      /\ ExpsLe(PGcd(x, y), x) /\ ExpsLe(PGcd(x, y), y)
      /\ Deg(PGcd(x, y)) + Deg(PLcm(x, y)) = Deg(x) + Deg(y)
Degrees == \A d \in 0..3 : \A m \in Gradus(d, -1) : Deg(m) = d /\ Len(m) = nv + 1
=============================================================================
