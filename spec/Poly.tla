-------------------------------- MODULE Poly --------------------------------
(* A store of polynomial registers over the integers and every public         *)
(* operation of GInv::PolyInt on it (C06), with the reduction steps and        *)
(* normal forms (C07), which are fixed only up to a nonzero rational factor.   *)
EXTENDS PolyZ, TLC, Json
LOCAL INSTANCE BigInt

CONSTANTS MaxVar, MaxDeg, MaxCoef, PosSize, OrderSet
VARIABLES nv, ord, regs, act
vars == <<nv, ord, regs, act>>

Reg(k) == k \in 1..Len(regs)
Put(k, f) == Reg(k) /\ regs' = [regs EXCEPT ![k] = f] /\ UNCHANGED <<nv, ord>>

Begin(nr, n, o) == nv' = n /\ ord' = o /\ regs' = [k \in 1..nr |-> PZero]

SetP(d, ts)    == Put(d, SumList(ts, 1))
ConstP(d, c)   == Put(d, PConst(nv, c))
MonoP(d, m)    == Put(d, PMono(m, One))
Copy(d, a)     == Put(d, regs[a])
Prol(d, v, a)  == Put(d, PProl(v, regs[a]))
Move(d, a)     == d # a /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = PZero] /\ UNCHANGED <<nv, ord>>
SwapP(d, a)    == d # a /\ regs' = [regs EXCEPT ![d] = regs[a], ![a] = regs[d]] /\ UNCHANGED <<nv, ord>>
Minus(d)       == Put(d, PNeg(regs[d]))
AddP(d, a, b)  == Put(d, PAdd(regs[a], regs[b]))
SubP(d, a, b)  == Put(d, PSub(regs[a], regs[b]))
MultP(d, a, b) == Is(CanPMul(regs[a], regs[b])) /\ Put(d, PMul(regs[a], regs[b]))
AddC(d, c)     == Put(d, PAdd(regs[d], PConst(nv, c)))
SubC(d, c)     == Put(d, PSub(regs[d], PConst(nv, c)))
MultC(d, c)    == Put(d, PScale(regs[d], c))
PowP(d, x)     == Is(x >= 2 => CanPMul(regs[d], regs[d])) /\ Put(d, PPow(nv, regs[d], x))

(* reduction steps: r is the value the implementation arrived at *)
Red(d, a, r) == /\ regs[d] # PZero /\ regs[a] # PZero
                /\ Is(MDivides(PLm(regs[a], ord), PLm(regs[d], ord)))
                /\ Is(Proportional(r, Cancel(regs[d], PLm(regs[d], ord), regs[a], ord)))
                /\ Put(d, r)
RedMaybe(d, a, r) == /\ regs[d] # PZero /\ regs[a] # PZero
                     /\ Is(LET t == PLm(regs[a], ord) IN
                        IF t \in DOMAIN regs[d] THEN Proportional(r, Cancel(regs[d], t, regs[a], ord))
                                                ELSE r = regs[d])
                     /\ Put(d, r)
PrimPart(d, r) == /\ Is(regs[d] = PZero => r = PZero)
                  /\ Is(IsPrimitive(r) /\ Proportional(r, regs[d])) /\ Put(d, r)
Gs(ds) == [j \in 1..Len(ds) |-> regs[ds[j]]]
NFull(f, gs) == NFTail(NFHead(f, gs, ord), gs, ord)
TailIrreducible(f, gs) == \A m \in DOMAIN f : m = PLm(f, ord) \/ FirstDivisor(gs, m, ord) = 0
NormalForm(d, ds, mode, r) ==
  /\ Is(\A j \in 1..Len(ds) : regs[ds[j]] # PZero)
  /\ Is(Proportional(r, CASE mode = "nf" -> NFull(regs[d], Gs(ds))
                       [] mode = "nfhead" -> NFHead(regs[d], Gs(ds), ord)
                       [] mode = "nftail" -> NFTail(regs[d], Gs(ds), ord)))
  /\ Put(d, r)

(* ------------------------------------------------------------ observations *)
Coefs(f) == {f[m] : m \in DOMAIN f}
MaxPosOf(f) == IF f = PZero THEN -1 ELSE LET S == {Pos(m) : m \in DOMAIN f} \cup {-1} IN CHOOSE p \in S : \A s \in S : s <= p

(* ------------------------------------------------- exhaustive configuration *)
Rs == 1..2
PosSet == {-1} \cup 0..(PosSize - 2)
SmallMonos(n) == {m \in {<<p>> \o x : p \in PosSet, x \in [1..n -> 0..MaxDeg]} : Deg(m) <= MaxDeg}
Cs == {FromInt(k) : k \in (-MaxCoef)..MaxCoef}
Init == nv \in 1..MaxVar /\ ord \in OrderSet /\ regs = [k \in Rs |-> PZero] /\ act = <<"begin", nv, ord>>
InBox(f) == /\ \A m \in DOMAIN f : Deg(m) <= MaxDeg
            /\ \A m \in DOMAIN f : f[m] \in Cs
Next ==
  \/ \E d \in Rs, m \in SmallMonos(nv) : MonoP(d, m) /\ act' = <<"mono", d, m>>
  \/ \E d \in Rs, c \in Cs : \/ ConstP(d, c) /\ act' = <<"const", d, c>>
                             \/ AddC(d, c) /\ act' = <<"addc", d, c>>
                             \/ SubC(d, c) /\ act' = <<"subc", d, c>>
                             \/ MultC(d, c) /\ act' = <<"multc", d, c>>
  \/ \E d, a \in Rs : \/ d # a /\ Copy(d, a) /\ act' = <<"copy", d, a>>
                      \/ d # a /\ Copy(d, a) /\ act' = <<"assign", d, a>>
                      \/ Copy(d, a) /\ act' = <<"gc", d, a>>
                      \/ Move(d, a) /\ act' = <<"movec", d, a>>
                      \/ Move(d, a) /\ act' = <<"moveassign", d, a>>
                      \/ SwapP(d, a) /\ act' = <<"swap", d, a>>
                      \/ AddP(d, d, a) /\ act' = <<"add", d, a>>
                      \/ SubP(d, d, a) /\ act' = <<"sub", d, a>>
                      \/ MultP(d, d, a) /\ act' = <<"mult", d, a>>
                      \/ \E v \in 1..nv : Prol(d, v, a) /\ act' = <<"prol", d, v, a>>
                      \/ Put(d, PNeg(regs[a])) /\ act' = <<"opneg", d, a>>
                      \/ \E b \in Rs : \/ AddP(d, a, b) /\ act' = <<"opadd", d, a, b>>
                                       \/ SubP(d, a, b) /\ act' = <<"opsub", d, a, b>>
                                       \/ MultP(d, a, b) /\ act' = <<"opmult", d, a, b>>
  \/ \E d \in Rs : \/ Minus(d) /\ act' = <<"minus", d>>
                   \/ \E x \in 0..2 : PowP(d, x) /\ act' = <<"pow", d, x>>
Spec == Init /\ [][Next]_vars
View == <<nv, ord, regs>>
Bound == \A k \in Rs : InBox(regs[k])
Lst(f) == LET S == DOMAIN f IN {<<m, f[m]>> : m \in S}
Emit == PrintT(<<"EDGE", ToJson(<<nv, ord, [k \in Rs |-> Lst(regs[k])]>>), ToJson(act'), ToJson(<<nv', ord', [k \in Rs |-> Lst(regs'[k])]>>)>>)

TypeOK == \A k \in Rs : \A m \in DOMAIN regs[k] : IsBig(regs[k][m]) /\ regs[k][m] # Zero /\ Len(m) = nv + 1
(* ring laws of the operators the store is specified with *)
RingLaws ==
  LET f == regs[1]  g == regs[2] IN
  /\ PAdd(f, g) = PAdd(g, f) /\ PSub(f, g) = PNeg(PSub(g, f)) /\ PSub(PAdd(f, g), g) = f
  /\ CanPMul(f, g) => PMul(f, g) = PMul(g, f)
  /\ (CanPMul(f, g) /\ CanPMul(f, f)) => PMul(f, PAdd(f, g)) = PAdd(PMul(f, f), PMul(f, g))
  /\ \A c \in Cs : PScale(PAdd(f, g), c) = PAdd(PScale(f, c), PScale(g, c))
  /\ (f # PZero /\ g # PZero /\ MDivides(PLm(g, ord), PLm(f, ord)) /\ Pos(PLm(g, ord)) = Pos(PLm(f, ord))) =>
       LET r == Cancel(f, PLm(f, ord), g, ord) IN r = PZero \/ OrdCmp(ord, PLm(f, ord), PLm(r, ord)) > 0
(* normal forms are irreducible and congruent: NF(f) - c f lies in (g) for one divisor g *)
NFLaws ==
  LET f == regs[1]  g == regs[2] IN
  (g # PZero /\ ord % 16 # 4) =>
    LET r == NFull(f, <<g>>) IN
    /\ \A m \in DOMAIN r : FirstDivisor(<<g>>, m, ord) = 0
    /\ NFull(r, <<g>>) = r
=============================================================================
