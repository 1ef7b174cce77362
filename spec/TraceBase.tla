----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded execution.  Each trace specification consumes one event per step; the
   execution is accepted if every event was consumed. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E0 == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
