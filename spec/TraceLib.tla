------------------------------ MODULE TraceLib ------------------------------
(* The log of the real code (ndjson, one event per public call) and the      *)
(* position in it.  Logs hold many traces; a "begin" event resets the state. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE tick
ev == Trace[tick]
IsEvent(op) == tick <= Len(Trace) /\ Trace[tick].op = op /\ tick' = tick + 1
Has(f) == f \in DOMAIN ev
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
