------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size for TLC, whose own integers have 32 bits.      *)
(* An integer is a sequence <<sign, d0, d1, ..., dk>>: sign is -1, 0 or 1,   *)
(* the digits are base 10^4, least significant first, without leading zero;  *)
(* zero is <<0>>.  Magnitudes below are the digit sequences alone.           *)
EXTENDS Integers, Sequences

Base == 10000

Zero == <<0>>
One  == <<1, 1>>

Abs(i) == IF i < 0 THEN -i ELSE i

RECURSIVE MagOf(_)
MagOf(i) == IF i = 0 THEN <<>> ELSE <<i % Base>> \o MagOf(i \div Base)
FromInt(i) == IF i = 0 THEN Zero ELSE IF i > 0 THEN <<1>> \o MagOf(i) ELSE <<-1>> \o MagOf(-i)

IsBig(b) == /\ Len(b) >= 1
            /\ b[1] \in {-1, 0, 1}
            /\ (b[1] = 0) = (Len(b) = 1)
            /\ Len(b) > 1 => b[Len(b)] # 0
            /\ \A i \in 2..Len(b) : b[i] \in 0..(Base - 1)

Sgn(b) == b[1]
Mag(b) == Tail(b)
Neg(b) == IF b[1] = 0 THEN b ELSE [b EXCEPT ![1] = -b[1]]
Small(b) == Len(b) <= 2                    \* |b| < 10^4
ToInt(b) == IF Len(b) = 1 THEN 0 ELSE IF Len(b) = 2 THEN b[1] * b[2] ELSE b[1] * (b[2] + Base * b[3])  \* only for |b| < 10^8

MkBig(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m

(* ------------------------------------------------------------ magnitudes *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpAt(a, b, Len(a))

RECURSIVE MagAddR(_, _, _, _, _)
MagAddR(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c
       IN MagAddR(a, b, i + 1, s \div Base, Append(acc, s % Base))
MagAdd(a, b) == MagAddR(a, b, 1, 0, <<>>)

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE MagSubR(_, _, _, _, _)          \* a >= b
MagSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN Trim(acc)
  ELSE LET s == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c
       IN IF s < 0 THEN MagSubR(a, b, i + 1, 1, Append(acc, s + Base))
                   ELSE MagSubR(a, b, i + 1, 0, Append(acc, s))
MagSub(a, b) == MagSubR(a, b, 1, 0, <<>>)

(* column sums: at most 21 products fit below 2^31, longer operands go row by row *)
RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, acc) ==                 \* sum of a[i]*b[k+1-i]
  IF i > Len(a) \/ i > k THEN acc
  ELSE IF k + 1 - i > Len(b) THEN ColSum(a, b, k, i + 1, acc)
  ELSE ColSum(a, b, k, i + 1, acc + a[i] * b[k + 1 - i])
RECURSIVE MagMulC(_, _, _, _, _)
MagMulC(a, b, k, c, acc) ==
  IF k >= Len(a) + Len(b) THEN
     (IF c = 0 THEN acc ELSE IF c < Base THEN Append(acc, c) ELSE MagMulC(a, b, k + 1, c \div Base, Append(acc, c % Base)))
  ELSE LET s == ColSum(a, b, k, 1, 0) + c IN MagMulC(a, b, k + 1, s \div Base, Append(acc, s % Base))
RECURSIVE MagScaleR(_, _, _, _, _)
MagScaleR(a, d, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[i] * d + c IN MagScaleR(a, d, i + 1, s \div Base, Append(acc, s % Base))
MagScale(a, d) == IF d = 0 THEN <<>> ELSE MagScaleR(a, d, 1, 0, <<>>)
RECURSIVE MagMulR(_, _, _)
MagMulR(a, b, i) ==                        \* a * (digits i.. of b)
  IF i > Len(b) THEN <<>>
  ELSE LET r == MagMulR(a, b, i + 1) IN MagAdd(MagScale(a, b[i]), IF r = <<>> THEN r ELSE <<0>> \o r)
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE IF Len(a) <= 20 THEN Trim(MagMulC(a, b, 1, 0, <<>>))
                ELSE IF Len(b) <= 20 THEN Trim(MagMulC(b, a, 1, 0, <<>>))
                ELSE Trim(MagMulR(a, b, 1))

(* quotient digit by repeated under-estimation from the two leading digits *)
RECURSIVE DigitR(_, _, _)
DigitR(r, b, q) ==                         \* <<q + r div b, r mod b>> for r < Base * b
  IF MagCmp(r, b) < 0 THEN <<q, r>>
  ELSE LET top == IF Len(r) > Len(b) THEN r[Len(r)] * Base + r[Len(r) - 1] ELSE r[Len(r)]
           e == top \div (b[Len(b)] + 1)
           g == IF e = 0 THEN 1 ELSE e
       IN DigitR(MagSub(r, MagScale(b, g)), b, q + g)
RECURSIVE MagDivR(_, _, _, _, _)
MagDivR(a, b, i, r, acc) ==
  IF i = 0 THEN <<Trim(acc), r>>
  ELSE LET r2 == IF r = <<>> THEN (IF a[i] = 0 THEN <<>> ELSE <<a[i]>>) ELSE <<a[i]>> \o r
           d == DigitR(r2, b, 0)
       IN MagDivR(a, b, i - 1, d[2], <<d[1]>> \o acc)
MagDivMod(a, b) == MagDivR(a, b, Len(a), <<>>, <<>>)   \* b # <<>>

RECURSIVE MagGcd(_, _)
RECURSIVE IntGcd(_, _)
IntGcd(a, b) == IF b = 0 THEN a ELSE IntGcd(b, a % b)
MagInt(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + Base * a[2]
MagGcd(a, b) == IF b = <<>> THEN a
                ELSE IF Len(a) <= 2 /\ Len(b) <= 2 THEN MagOf(IntGcd(MagInt(a), MagInt(b)))
                ELSE MagGcd(b, MagDivMod(a, b)[2])

(* --------------------------------------------------------------- integers *)
Cmp(a, b) == IF a[1] # b[1] THEN (IF a[1] > b[1] THEN 1 ELSE -1)
             ELSE IF a[1] = 0 THEN 0 ELSE a[1] * MagCmp(Tail(a), Tail(b))
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF Small(a) /\ Small(b) THEN FromInt(a[1] * a[2] + b[1] * b[2])
             ELSE IF a[1] = b[1] THEN <<a[1]>> \o MagAdd(Tail(a), Tail(b))
             ELSE LET c == MagCmp(Tail(a), Tail(b))
                  IN IF c = 0 THEN Zero
                     ELSE IF c > 0 THEN <<a[1]>> \o MagSub(Tail(a), Tail(b))
                     ELSE <<b[1]>> \o MagSub(Tail(b), Tail(a))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
             ELSE IF Small(a) /\ Small(b) THEN FromInt(a[1] * a[2] * b[1] * b[2])
             ELSE <<a[1] * b[1]>> \o MagMul(Tail(a), Tail(b))
(* truncated division *)
DivT(a, b) == IF a[1] = 0 THEN Zero ELSE MkBig(a[1] * b[1], MagDivMod(Tail(a), Tail(b))[1])
RemT(a, b) == IF a[1] = 0 THEN Zero ELSE MkBig(a[1], MagDivMod(Tail(a), Tail(b))[2])
Divides(b, a) == IF b[1] = 0 THEN a[1] = 0 ELSE RemT(a, b) = Zero
Gcd(a, b) == MkBig(1, MagGcd(Tail(a), Tail(b)))
IsAbsOne(a) == Tail(a) = <<1>>

RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN One ELSE Mul(a, Pow(a, e - 1))

(* residue modulo a small number (below 2^17) *)
RECURSIVE ModR(_, _, _, _)
ModR(b, p, i, r) == IF i = 1 THEN r ELSE ModR(b, p, i - 1, (r * Base + b[i]) % p)
ModP(b, p) == LET r == ModR(b, p, Len(b), 0) IN IF b[1] < 0 /\ r # 0 THEN p - r ELSE r

(* value of digits in another base, most significant first; several digits at
   a time, as many as fit below 10^4 *)
RECURSIVE MulAddR(_, _, _, _)              \* m * d + carry, in place
MulAddR(m, d, i, c) ==
  IF i > Len(m) THEN (IF c = 0 THEN m ELSE Append(m, c))
  ELSE LET s == m[i] * d + c IN MulAddR([m EXCEPT ![i] = s % Base], d, i + 1, s \div Base)
RECURSIVE Chunk(_, _, _, _, _)             \* value of digits i..j
Chunk(ds, base, i, j, v) == IF i > j THEN v ELSE Chunk(ds, base, i + 1, j, v * base + ds[i])
RECURSIVE PowS(_, _)
PowS(b, x) == IF x = 0 THEN 1 ELSE b * PowS(b, x - 1)
PerChunk(base) == CHOOSE q \in 1..13 : PowS(base, q) <= Base /\ PowS(base, q + 1) > Base
RECURSIVE HornerR(_, _, _, _, _, _)
HornerR(ds, base, q, big, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE HornerR(ds, base, q, big, i + q, MulAddR(acc, big, 1, Chunk(ds, base, i, i + q - 1, 0)))
Horner(ds, base) ==
  LET q == PerChunk(base)
      big == PowS(base, q)
      r == Len(ds) % q                     \* the leading digits that do not fill a chunk
      m == HornerR(ds, base, q, big, r + 1, MagOf(Chunk(ds, base, 1, r, 0)))
  IN MkBig(1, Trim(m))
(* number of 64-bit words of the magnitude *)
TwoTo64 == Pow(FromInt(256), 8)
RECURSIVE LimbsR(_, _)
LimbsR(m, k) == IF m = <<>> THEN k ELSE LimbsR(MagDivMod(m, Tail(TwoTo64))[1], k + 1)
Limbs(a) == LimbsR(Tail(a), 0)
=============================================================================
