------------------------------ MODULE PermTrace -----------------------------
EXTENDS Perm, TraceLib
RECURSIVE PowI(_, _)
PowI(b, x) == IF x = 0 THEN 1 ELSE b * PowI(b, x - 1)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
(* a table row: <<arrangement, << <<draws used, number of runs>>, ... >> >> *)
MaxDraws(t) == LET S == {t[k][2][h][1] : <<k, h>> \in {kh \in (1..Len(t)) \X (1..64) : kh[2] <= Len(t[kh[1]][2])}}
               IN CHOOSE x \in S : \A y \in S : y <= x
Weight(row, L, D) == Sum([h \in 1..Len(row[2]) |-> row[2][h][2] * PowI(L, D - row[2][h][1])], Len(row[2]))
TAll == /\ IsEvent("all")
        /\ LET t == ev.table  n == ev.n  D == MaxDraws(ev.table) IN
           /\ Len(t) = Fact(n)
           /\ Is(\A k \in 1..Len(t) : IsPerm(t[k][1], n))
           /\ Is(\A k \in 1..Len(t) : Weight(t[k], ev.L, D) = Weight(t[1], ev.L, D))
TWalk == /\ IsEvent("walk") /\ ev.size = ev.n /\ Is(\A k \in 1..Len(ev.perms) : IsPerm(ev.perms[k], ev.n))
         /\ ev.out = ev.perms[Len(ev.perms)]
(* ten standard deviations of a uniform source *)
TFreq == /\ IsEvent("freq") /\ Len(ev.table) = Fact(ev.n)
         /\ LET x == ev.k \div Fact(ev.n) IN
            Is(\A k \in 1..Len(ev.table) : IsPerm(ev.table[k][1], ev.n) /\ (ev.table[k][2] - x) * (ev.table[k][2] - x) <= 100 * x)
(* long arrangements: every element equally often at every place, from every place to every place, *)
(* and every cyclic difference but 0 equally often between neighbours                            *)
Even(c, x) == (c - x) * (c - x) <= 100 * x
TMarg == /\ IsEvent("marg") /\ ev.ok
         /\ Is(\A a, b \in 1..ev.n : Even(ev.place[a][b], ev.k \div ev.n) /\ Even(ev.moved[a][b], ev.k \div ev.n))
         /\ Is(\A a \in 1..ev.n : ev.diff[a][1] = 0 /\ \A d \in 2..ev.n : Even(ev.diff[a][d], ev.k \div (ev.n - 1)))
TraceInit == tick = 1 /\ perm = <<>> /\ at = 0 /\ drawn = <<>>
TraceNext == (TAll \/ TMarg \/ TWalk \/ TFreq \/ IsEvent("begin") \/ IsEvent("end")) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
