------------------------------- MODULE Integer ------------------------------
(* GInv::Integer (C13): registers of exact integers.                          *)
EXTENDS BigInt, TLC, FiniteSets
VARIABLES ints, act
vars == <<ints, act>>
Is(p) == p = TRUE
NoInt == <<>>
Live(k) == k \in DOMAIN ints /\ ints[k] # NoInt
Put(d, x) == d \in DOMAIN ints /\ ints' = [ints EXCEPT ![d] = x]
L2(d, a) == Live(d) /\ Live(a) /\ d # a
L3(d, a, b) == Live(d) /\ Live(a) /\ Live(b) /\ d # a /\ d # b
New(d) == Put(d, Zero)
FromText(d, base, dg) == Put(d, LET m == Horner(Tail(dg), base) IN IF dg[1] < 0 THEN Neg(m) ELSE m)
SetTo(d, x) == Live(d) /\ Put(d, x)
Copy(d, a) == Live(a) /\ Put(d, ints[a])
Assign(d, a) == Live(d) /\ Live(a) /\ Put(d, ints[a])
Move(d, a) == Live(a) /\ d # a /\ ints' = [ints EXCEPT ![d] = ints[a], ![a] = NoInt]
Swap(d, a) == L2(d, a) /\ ints' = [ints EXCEPT ![d] = ints[a], ![a] = ints[d]]
Free(d) == Put(d, NoInt)
NegR(d) == Live(d) /\ Put(d, Neg(ints[d]))
Add2(d, a) == Live(d) /\ Live(a) /\ Put(d, Add(ints[d], ints[a]))
Sub2(d, a) == Live(d) /\ Live(a) /\ Put(d, Sub(ints[d], ints[a]))
Mul2(d, a) == Live(d) /\ Live(a) /\ Put(d, Mul(ints[d], ints[a]))
Div2(d, a) == /\ Live(d) /\ Live(a) /\ ints[a] # Zero /\ Is(Divides(ints[a], ints[d])) /\ Put(d, DivT(ints[d], ints[a]))
Gcd2(d, a) == /\ Live(d) /\ Live(a) /\ ints[a] # Zero /\ ints[d] # Zero /\ Put(d, Gcd(ints[d], ints[a]))
Add3(d, a, b) == L3(d, a, b) /\ Put(d, Add(ints[a], ints[b]))
Sub3(d, a, b) == L3(d, a, b) /\ Put(d, Sub(ints[a], ints[b]))
Mul3(d, a, b) == L3(d, a, b) /\ Put(d, Mul(ints[a], ints[b]))
Div3(d, a, b) == L3(d, a, b) /\ ints[b] # Zero /\ Is(Divides(ints[b], ints[a])) /\ Put(d, DivT(ints[a], ints[b]))
Gcd3(d, a, b) == L3(d, a, b) /\ ints[a] # Zero /\ ints[b] # Zero /\ Put(d, Gcd(ints[a], ints[b]))
Queries(x) == [zero |-> x = Zero, one |-> x = One, aone |-> IsAbsOne(x), sgn |-> Sgn(x), norm |-> Limbs(x)]

(* --------------------------- the arithmetic itself: laws on boundary values *)
W == 65536
Two(n) == Pow(FromInt(2), n)
Boundary == LET P == {Zero, One, FromInt(2), FromInt(9999), FromInt(10000), FromInt(10001), FromInt(99999999),
                      Two(31), Two(32), Sub(Two(63), One), Two(63), Sub(Two(64), One), Two(64), Add(Two(64), One),
                      Sub(Two(128), One), Two(128), Mul(FromInt(9999), Two(64)), Pow(FromInt(10), 20), Pow(FromInt(7), 45)}
            IN P \cup {Neg(x) : x \in P}
Init == \E x, y \in Boundary : ints = <<x, y>> /\ act = <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == LET x == ints[1]  y == ints[2] IN
  /\ IsBig(Add(x, y)) /\ IsBig(Mul(x, y)) /\ IsBig(Sub(x, y))
  /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
  /\ Sub(Add(x, y), y) = x /\ Add(Sub(x, y), y) = x /\ Sub(x, x) = Zero
  /\ Mul(Add(x, y), y) = Add(Mul(x, y), Mul(y, y))
  /\ (Cmp(x, y) > 0) = (Sgn(Sub(x, y)) > 0)
  /\ y # Zero => /\ DivT(Mul(x, y), y) = x
                 /\ Divides(y, Mul(x, y))
                 /\ Add(Mul(DivT(x, y), y), RemT(x, y)) = x
                 /\ Cmp(IF Sgn(RemT(x, y)) < 0 THEN Neg(RemT(x, y)) ELSE RemT(x, y), IF Sgn(y) < 0 THEN Neg(y) ELSE y) < 0
  /\ (x # Zero /\ y # Zero) => LET g == Gcd(x, y) IN
        /\ Divides(g, x) /\ Divides(g, y) /\ Gcd(DivT(x, g), DivT(y, g)) = One
        /\ Gcd(Mul(x, y), y) = (IF Sgn(y) < 0 THEN Neg(y) ELSE y)
  /\ \A p \in {2, 3, 10007} : ModP(Mul(x, y), p) = (ModP(x, p) * ModP(y, p)) % p /\ ModP(Add(x, y), p) = (ModP(x, p) + ModP(y, p)) % p
SmallAgree == \A i, j \in {-10001, -9999, -3, 0, 1, 7, 9999, 10000, 12345} :
   Add(FromInt(i), FromInt(j)) = FromInt(i + j) /\ Mul(FromInt(i), FromInt(j)) = FromInt(i * j) /\ ToInt(FromInt(i)) = i
Both == Laws /\ (ints[1] = Zero => SmallAgree)
=============================================================================
