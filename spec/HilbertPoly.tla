----------------------------- MODULE HilbertPoly ----------------------------
(* GInv::HilbertPoly (C17): polynomials in s with rational coefficients, as    *)
(* sequences of fractions <<numerator, denominator>> from the constant term.   *)
EXTENDS BigInt, TLC, FiniteSets
CONSTANTS Dim, Box
VARIABLES hp, act
vars == <<hp, act>>
Is(p) == p = TRUE

RZero == <<Zero, One>>
ROne  == <<One, One>>
Norm(n, d) ==               \* lowest terms, positive denominator
  IF n = Zero THEN RZero
  ELSE LET g == Gcd(n, d)  s == IF d[1] < 0 THEN -1 ELSE 1
           n1 == DivT(n, g)  d1 == DivT(d, g)
       IN IF s < 0 THEN <<Neg(n1), Neg(d1)>> ELSE <<n1, d1>>
RAdd(x, y) == Norm(Add(Mul(x[1], y[2]), Mul(y[1], x[2])), Mul(x[2], y[2]))
RNeg(x) == <<Neg(x[1]), x[2]>>
RMul(x, y) == Norm(Mul(x[1], y[1]), Mul(x[2], y[2]))
RInt(a) == <<FromInt(a), One>>
LowestTerms(x) == x[2][1] = 1 /\ IsBig(x[1]) /\ IsBig(x[2]) /\ (IF x[1] = Zero THEN x[2] = One ELSE Gcd(x[1], x[2]) = One)

HZero(dim) == [k \in 1..(dim + 1) |-> RZero]
HAdd(p, q) == TLCEval([k \in DOMAIN p |-> RAdd(p[k], q[k])])
HSub(p, q) == TLCEval([k \in DOMAIN p |-> RAdd(p[k], RNeg(q[k]))])
HMul(p, x) == TLCEval([k \in DOMAIN p |-> RMul(p[k], RInt(x))])
(* (s + a)(s + a - 1) ... (s + a - b + 1) / b! *)
RECURSIVE FallR(_, _, _)
FallR(a, b, j) ==           \* coefficients of the product of the factors j..b-1
  IF j = b THEN <<One>>
  ELSE LET r == FallR(a, b, j + 1)  c == FromInt(a - j)
       IN TLCEval([k \in 1..(Len(r) + 1) |-> Add(IF k <= Len(r) THEN Mul(c, r[k]) ELSE Zero, IF k > 1 THEN r[k - 1] ELSE Zero)])
RECURSIVE FactB(_)
FactB(b) == IF b <= 1 THEN One ELSE Mul(FromInt(b), FactB(b - 1))
HBin(dim, a, b) == LET f == FallR(a, b, 0)  d == FactB(b)
                   IN TLCEval([k \in 1..(dim + 1) |-> IF k <= Len(f) THEN Norm(f[k], d) ELSE RZero])
RECURSIVE HEvalR(_, _, _)
HEvalR(p, s, k) == IF k > Len(p) THEN RZero ELSE RAdd(p[k], RMul(s, HEvalR(p, s, k + 1)))
HEval(p, s) == HEvalR(p, RInt(s), 1)
(* what is printed: the nonzero coefficients, highest power first *)
RECURSIVE HTerms(_, _)
HTerms(p, k) == IF k = 0 THEN <<>> ELSE (IF p[k] = RZero THEN <<>> ELSE <<<<k - 1, p[k]>>>>) \o HTerms(p, k - 1)

(* ------------------------------------------ laws of the operators (bounded) *)
RECURSIVE Choose(_, _)      \* C(n, b) for natural n
Choose(n, b) == IF b = 0 THEN 1 ELSE IF n < b THEN 0 ELSE Choose(n - 1, b - 1) + Choose(n - 1, b)
Init == \E a \in -Box..Box, b \in 0..Dim : hp = <<a, b>> /\ act = <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pascal == LET a == hp[1]  b == hp[2] IN b > 0 => HBin(Dim, a + 1, b) = HAdd(HBin(Dim, a, b), HBin(Dim, a, b - 1))
Value == LET a == hp[1]  b == hp[2] IN \A s \in Box..(Box + 3) : HEval(HBin(Dim, a, b), s) = RInt(Choose(s + a, b))
Lowest == LET p == HBin(Dim, hp[1], hp[2]) IN \A k \in DOMAIN p : LowestTerms(p[k])
Ring == LET p == HBin(Dim, hp[1], hp[2])  q == HBin(Dim, hp[2], 1) IN
        /\ Dim >= 1 => HSub(HAdd(p, q), q) = p
        /\ HAdd(p, p) = HMul(p, 2) /\ HSub(p, p) = HZero(Dim) /\ HMul(p, -1) = HSub(HZero(Dim), p)
=============================================================================
