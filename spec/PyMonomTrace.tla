---------------------------- MODULE PyMonomTrace -----------------------------
(* Logs of the monomials of the pure Python package.                           *)
EXTENDS PyMonom, TraceLib
Obs == /\ Len(ev.st) = Len(regs')
       /\ Is(\A k \in 1..Len(ev.st) :
            IF regs'[k] = None THEN ev.st[k] = <<>>
            ELSE ev.st[k] = <<Pos(regs'[k]), Deg(regs'[k])>> \o Tail(regs'[k]))
D == ev.d + 1
A1 == ev.a + 1
B1 == ev.b + 1
Step(op, A) == IsEvent(op) /\ A /\ Obs /\ act' = act /\ ord' = ord
Query(op) == IsEvent(op) /\ UNCHANGED pyvars /\ Obs
(* init hands out the variables and the components in order *)
PBegin == /\ IsEvent("begin") /\ Begin(ev.nr, ev.n) /\ act' = act /\ ord' = ev.order
          /\ ev.vars = [v \in 1..ev.n |-> VarM(ev.n, v, -1)]
          /\ ev.funs = [p \in 1..Len(ev.funs) |-> Unit(ev.n, Len(ev.funs) - p)]
PMut ==
  \/ Step("zero", ZeroM(D, ev.pos)) \/ Step("var", VarOp(D, ev.v + 1, ev.pos)) \/ Step("set", SetM(D, ev.pos, ev.e))
  \/ Step("copy", Copy(D, A1)) \/ Step("prol", Prol(D, ev.v + 1, A1)) \/ Step("prod", Prod(D, A1, B1))
  \/ Step("power", PowOp(D, A1, ev.x)) \/ Step("cdiv", DivOp(D, A1, B1))
  \/ Step("lcm", LcmOp(D, A1, B1)) \/ Step("gcd", GcdOp(D, A1, B1)) \/ Step("free", FreeM(D))
PQ == /\ Query("pq")
      /\ Is(LET x == regs[A1]  y == regs[B1]  c == PyCmp(x, y) IN
         /\ ev.div = MDivides(y, x) /\ ev.divt = (MDivides(y, x) /\ Deg(x) > Deg(y))
         /\ ev.lex = Lex(x, y) /\ ev.deglex = DegLex(x, y)
         /\ ev.tl = TopCmp("lex", x, y) /\ ev.td = TopCmp("deglex", x, y)
         /\ ev.pl = PotCmp("lex", x, y) /\ ev.pd = PotCmp("deglex", x, y)
         /\ ev.cmp = c /\ ev.lt = (c < 0) /\ ev.le = (c <= 0) /\ ev.gt = (c > 0) /\ ev.ge = (c >= 0)
         /\ ev.eq = (x = y) /\ ev.ne = (x # y) /\ (x = y => ev.hash) /\ ev.set = (IF x = y THEN 1 ELSE 2)
         /\ ev.bool = (Pos(x) # -1 \/ Deg(x) > 0) /\ ev.deg = Deg(x) /\ ev.expand = ExpandFrom(x, 1)
         /\ \A f \in DOMAIN ev.txt : ev.txt[f] = x
         /\ Has("nonmult") => ev.nonmult = NonMult(x, y) - 1)
PGrad == /\ Query("gradus")
         /\ Is(LET G == TLCEval(Gradus(ev.deg, ev.pos)) IN
               Len(ev.got) = Cardinality(G) /\ {ev.got[k] : k \in 1..Len(ev.got)} = G)
PEnd == IsEvent("end") /\ regs' = <<>> /\ UNCHANGED <<nv, act, ord>>
TraceInit == tick = 1 /\ nv = 1 /\ regs = <<>> /\ act = <<>> /\ ord = 18
TraceNext == PBegin \/ PMut \/ PQ \/ PGrad \/ PEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<pyvars, tick>>
=============================================================================
