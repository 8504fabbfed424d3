------------------------------- MODULE ModPoly -------------------------------
(* Polynomials (elements of a free module) modulo a prime, for deciding ideal  *)
(* membership: a polynomial is a function from packed monomials to nonzero     *)
(* residues.  The packing is linear and reverses the order: the leading        *)
(* monomial is the least key.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT P                          \* the prime, below 2^15.5

(* --------------------------------------------------------------- packing *)
(* ctx: [n, ord, b, w (weights of the variables), pw (weight of the component)] *)
Radix(n) == IF n <= 2 THEN 4000 ELSE IF n = 3 THEN 400 ELSE IF n = 4 THEN 100 ELSE IF n = 5 THEN 40 ELSE IF n = 6 THEN 20 ELSE IF n = 7 THEN 14 ELSE 10
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE PartSum(_, _, _)
PartSum(b, lo, hi) == IF lo > hi THEN 0 ELSE Pow(b, lo) + PartSum(b, lo + 1, hi)
MkCtx(n, ord) ==
  LET b == Radix(n)
      top == ord \div 16 # 2
      unit == IF top THEN 8 ELSE 1
      lexw == [v \in 1..n |-> unit * Pow(b, n - v)]
      degw == [v \in 1..n |-> unit * PartSum(b, v - 1, n - 1)]
  IN TLCEval([n |-> n, ord |-> ord, b |-> b, lex |-> ord % 16 = 1, unit |-> unit,
              w |-> TLCEval(IF ord % 16 = 1 THEN lexw ELSE degw), pw |-> IF top THEN 1 ELSE Pow(b, n)])
RECURSIVE Dot(_, _, _)
Dot(e, w, k) == IF k = 0 THEN 0 ELSE e[k] * w[k] + Dot(e, w, k - 1)
ShiftKey(cx, e) == -Dot(e, cx.w, cx.n)                    \* of a monomial of the ring, e exponents
KeyOf(cx, m) == -(Dot(Tail(m), cx.w, cx.n) + cx.pw * (m[1] + 1))   \* m = <<pos, e...>>
PosOfKey(cx, k) == (IF cx.unit = 8 THEN (-k) % 8 ELSE (-k) \div cx.pw) - 1
ExpsOfKey(cx, k) ==
  LET q == IF cx.unit = 8 THEN (-k) \div 8 ELSE (-k) % cx.pw
      dg(j) == (q \div Pow(cx.b, j)) % cx.b              \* digit of weight b^j
  IN IF cx.lex THEN TLCEval([v \in 1..cx.n |-> dg(cx.n - v)])
     ELSE TLCEval([v \in 1..cx.n |-> IF v = 1 THEN dg(0) ELSE dg(v - 1) - dg(v - 2)])

(* ------------------------------------------------------------- arithmetic *)
RECURSIVE PowMod(_, _)
PowMod(x, k) == IF k = 0 THEN 1 ELSE LET h == PowMod(x, k \div 2) q == (h * h) % P IN IF k % 2 = 0 THEN q ELSE (q * x) % P
Inv(x) == PowMod(x, P - 2)
(* a big integer <<sign, d0, d1, ...>> in base 10^4 *)
RECURSIVE BigModR(_, _)
BigModR(a, k) == IF k > Len(a) THEN 0 ELSE (BigModR(a, k + 1) * 10000 + a[k]) % P
BigMod(a) == IF a[1] = 0 THEN 0 ELSE LET r == BigModR(a, 2) IN IF a[1] > 0 \/ r = 0 THEN r ELSE P - r

NoPoly == <<>>                      \* the zero polynomial: the empty function
Nonzero(h) == LET D == {k \in DOMAIN h : h[k] # 0} IN TLCEval([k \in D |-> h[k]])
(* of a logged list of terms <<monomial, coefficient>> *)
OfTerms(cx, t) ==
  LET keys == TLCEval([j \in 1..Len(t) |-> KeyOf(cx, t[j][1])])
      D == {keys[j] : j \in 1..Len(t)}
  IN Nonzero(TLCEval([k \in D |-> BigMod(t[CHOOSE j \in 1..Len(t) : keys[j] = k][2])]))
LeadKey(f) == LET D == DOMAIN f IN CHOOSE k \in D : \A j \in D : k <= j
(* f - c x^s g *)
Axpy(f, c, s, g) ==
  LET DF == DOMAIN f
      DG == DOMAIN g
      D == TLCEval(DF \cup {k + s : k \in DG})
      h == TLCEval([k \in D |-> ((IF k \in DF THEN f[k] ELSE 0) + (IF (k - s) \in DG THEN P - ((c * g[k - s]) % P) ELSE 0)) % P])
  IN Nonzero(h)
Monic(f) == LET c == Inv(f[LeadKey(f)]) IN TLCEval([k \in DOMAIN f |-> (f[k] * c) % P])

(* a divisor: [m |-> <<pos, e...>>, k |-> key of m, f |-> monic polynomial, nm |-> flags] *)
DivisorOf(cx, f) == LET g == Monic(f) k == LeadKey(g)
                    IN TLCEval([m |-> <<PosOfKey(cx, k)>> \o ExpsOfKey(cx, k), k |-> k, f |-> g, nm |-> TLCEval([v \in 1..cx.n |-> 0])])
JanetDivisorOf(cx, f, nm) == TLCEval([DivisorOf(cx, f) EXCEPT !.nm = nm])
(* with flags of nonmultiplicative variables: those must not be needed *)
RECURSIVE FirstDiv(_, _, _, _)
FirstDiv(G, pos, e, j) ==
  IF j > Len(G) THEN 0
  ELSE IF G[j].m[1] = pos /\ \A v \in DOMAIN e : G[j].m[v + 1] = e[v] \/ (G[j].m[v + 1] < e[v] /\ G[j].nm[v] = 0) THEN j
  ELSE FirstDiv(G, pos, e, j + 1)
DivisorAt(cx, G, k) == FirstDiv(G, PosOfKey(cx, k), ExpsOfKey(cx, k), 1)
(* reduce the head until no divisor divides it *)
RECURSIVE NfHead(_, _, _)
NfHead(cx, f, G) ==
  IF f = NoPoly THEN f
  ELSE LET k == LeadKey(f)  j == DivisorAt(cx, G, k)
       IN IF j = 0 THEN f ELSE NfHead(cx, Axpy(f, f[k], k - G[j].k, G[j].f), G)
(* reduce every monomial: the result, term by term *)
RECURSIVE NfAll(_, _, _, _)
NfAll(cx, f, G, done) ==
  IF f = NoPoly THEN done
  ELSE LET k == LeadKey(f)  j == DivisorAt(cx, G, k)
       IN IF j # 0 THEN NfAll(cx, Axpy(f, f[k], k - G[j].k, G[j].f), G, done)
          ELSE NfAll(cx, TLCEval([x \in DOMAIN f \ {k} |-> f[x]]), G, (k :> f[k]) @@ done)

(* --------------------------------------------------------------- Buchberger *)
LcmKey(cx, a, b) == ShiftKey(cx, [v \in 1..cx.n |-> IF a[v + 1] > b[v + 1] THEN a[v + 1] ELSE b[v + 1]])
LcmDeg(a, b) == LET d(v) == IF a[v] > b[v] THEN a[v] ELSE b[v] IN Dot([v \in 1..(Len(a) - 1) |-> d(v + 1)], [v \in 1..(Len(a) - 1) |-> 1], Len(a) - 1)
Coprime(a, b) == \A v \in 2..Len(a) : a[v] = 0 \/ b[v] = 0
SPoly(cx, a, b) ==
  LET l == LcmKey(cx, a.m, b.m)
      base(x) == x.k + cx.pw * (x.m[1] + 1)              \* the key without its component
  IN Axpy(Axpy(NoPoly, P - 1, l - base(a), a.f), 1, l - base(b), b.f)
(* pairs of a new divisor with those before: <<degree of the lcm, i, j>>; the  *)
(* product criterion holds for ideals only                                      *)
NewPairs(G, ideal) ==
  LET j == Len(G) IN
  {<<LcmDeg(G[i].m, G[j].m), i, j>> : i \in {x \in 1..(j - 1) : G[x].m[1] = G[j].m[1] /\ ~(ideal /\ Coprime(G[x].m, G[j].m))}}
MinPair(S) == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] <= q[3])))
(* the chain criterion: an element dividing the lcm whose pairs with both are done *)
Chain(G, S, i, j) ==
  \E x \in DOMAIN G : /\ x # i /\ x # j /\ G[x].m[1] = G[i].m[1]
     /\ \A v \in 2..Len(G[x].m) : G[x].m[v] <= (IF G[i].m[v] > G[j].m[v] THEN G[i].m[v] ELSE G[j].m[v])
     /\ ~\E p \in S : (p[2] = x /\ p[3] \in {i, j}) \/ (p[3] = x /\ p[2] \in {i, j})
(* completes until the wanted polynomials all reduce to zero, or to the end *)
RECURSIVE Buch(_, _, _, _, _)
AllZero(cx, G, W) == \A x \in DOMAIN W : NfHead(cx, W[x], G) = NoPoly
Buch(cx, G, S, ideal, W) ==
  IF S = {} THEN AllZero(cx, G, W)
  ELSE LET p == MinPair(S)  S1 == TLCEval(S \ {p})
       IN IF Chain(G, S1, p[2], p[3]) THEN Buch(cx, G, S1, ideal, W)
          ELSE LET h == NfHead(cx, SPoly(cx, G[p[2]], G[p[3]]), G)
               IN IF h = NoPoly THEN Buch(cx, G, S1, ideal, W)
                  ELSE LET G2 == Append(G, DivisorOf(cx, h))
                           W2 == SelectSeq(TLCEval([x \in DOMAIN W |-> NfHead(cx, W[x], G2)]), LAMBDA f : f # NoPoly)
                       IN IF W2 = <<>> THEN TRUE
                          ELSE Buch(cx, G2, TLCEval(S1 \cup NewPairs(G2, ideal)), ideal, W2)
RECURSIVE Enter(_, _, _, _, _, _)
Enter(cx, G, S, ideal, F, k) ==
  IF k > Len(F) THEN <<G, S>>
  ELSE LET h == NfHead(cx, F[k], G)
       IN IF h = NoPoly THEN Enter(cx, G, S, ideal, F, k + 1)
          ELSE LET G2 == Append(G, DivisorOf(cx, h)) IN Enter(cx, G2, TLCEval(S \cup NewPairs(G2, ideal)), ideal, F, k + 1)
(* every polynomial of W is in the submodule generated by F *)
AllIn(cx, F, W, ideal) == LET r == Enter(cx, <<>>, {}, ideal, F, 1)
                              W1 == SelectSeq(TLCEval([x \in DOMAIN W |-> NfHead(cx, W[x], r[1])]), LAMBDA f : f # NoPoly)
                          IN IF W1 = <<>> THEN TRUE ELSE Buch(cx, r[1], r[2], ideal, W1)
=============================================================================
