------------------------------ MODULE MemTrace ------------------------------
(* Whole programs over any part of the library: when a program is over and has  *)
(* destroyed what it made, the process-wide memory in use is what it was (C11). *)
EXTENDS Integers, Sequences, TLC, TraceLib
VARIABLES running
TBegin == IsEvent("begin") /\ ~running /\ running' = TRUE
TGone == IsEvent("gone") /\ running /\ ev.curr = 0 /\ running' = FALSE
TraceInit == tick = 1 /\ running = FALSE
TraceNext == TBegin \/ TGone
TraceSpec == TraceInit /\ [][TraceNext]_<<running, tick>>
=============================================================================
