----------------------------- MODULE ArenaTrace -----------------------------
(* addresses are logged relative to the first block, as <<high, low 24 bits>> *)
EXTENDS Arena, TraceLib
Unit24 == 16777216
Before(p, n, q) ==          \* p + n <= q
  LET h == q[1] - p[1] IN IF h > 60 THEN TRUE ELSE IF h < 0 THEN FALSE ELSE h * Unit24 + q[2] - p[2] >= n
Apart(p, n, q, m) == Before(p, n, q) \/ Before(q, m, p)
ObsC(st) == /\ Len(st[1]) = Len(arenas')
            /\ Is(\A d \in 1..Len(st[1]) : IF arenas'[d] = NoArena THEN st[1][d] = <<>>
                                           ELSE st[1][d][1] = arenas'[d].alloc /\ st[1][d][2] = arenas'[d].size)
            /\ Len(st[2]) = Len(blks') /\ Is(\A k \in 1..Len(blks') : blks'[k].live => st[2][k] = blks'[k].pat)
            /\ st[3] = curr' /\ st[4] = peak'
Step(op, A) == IsEvent(op) /\ A /\ ObsC(ev.st) /\ act' = act
TBegin == /\ IsEvent("begin") /\ page' = ev.page /\ arenas' = [d \in 1..ev.na |-> NoArena] /\ blks' = <<>>
          /\ curr' = ev.curr /\ peak' = ev.max /\ act' = act
TGet == /\ Step("get", Get(ev.d + 1, ev.n, ev.pat, <<ev.hi, ev.lo>>)) /\ ev.al = 0
        /\ Is(\A k \in DOMAIN blks : blks[k].ar # 0 => Apart(blks[k].at, blks[k].n, <<ev.hi, ev.lo>>, ev.n))
TMut ==
  \/ Step("new", New(ev.d + 1))
  \/ Step("copy", CopyA(ev.d + 1, ev.a + 1))
  \/ Step("swap", Swap(ev.d + 1, ev.a + 1))
  \/ Step("drop", Drop(ev.d + 1))
  \/ Step("free", Free(ev.k + 1))
  \/ Step("write", Write(ev.k + 1, ev.pat))
TLimit == /\ IsEvent("limit") /\ UNCHANGED vars /\ ObsC(ev.st) /\ Live(ev.d + 1)
          /\ Is(MustEnd(ev.d + 1, ev.n, ev.room) => ev.ended)
          /\ Is(ev.ended => MayEnd(ev.d + 1, ev.n, ev.room) /\ ev.clean)
(* when every arena is gone the memory in use is what it was before *)
TEnd == /\ IsEvent("end") /\ ev.alive = 0
        /\ ev.curr = curr - SumS([d \in DOMAIN arenas |-> IF arenas[d] = NoArena THEN 0 ELSE arenas[d].alloc], DOMAIN arenas)
        /\ arenas' = [d \in DOMAIN arenas |-> NoArena] /\ blks' = <<>> /\ curr' = ev.curr /\ UNCHANGED <<page, peak, act>>
TraceInit == tick = 1 /\ page = 1 /\ arenas = <<>> /\ blks = <<>> /\ curr = 0 /\ peak = 0 /\ act = <<>>
TraceNext == TBegin \/ TGet \/ TMut \/ TLimit \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tick>>
=============================================================================
