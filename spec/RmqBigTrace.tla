---------------------------- MODULE RmqBigTrace ----------------------------
(* Recorded executions of both range-minimum structures on arrays beyond 2^16 blocks (C13, C14). *)
EXTENDS TraceBase, RmqBig
VARIABLES ref, st
vars == << l, ref, st >>
P == Trace[ref].pieces
Q == ref > 0 /\ UNCHANGED << ref, st >>
TInit == l = 1 /\ ref = 0 /\ st = << >>
TEpisode == IsEvent("Episode") /\ ref' = 0 /\ st' = << >>
TBuild == IsEvent("Build") /\ ref' = l /\ st' = Starts(E0.pieces)
          /\ (\A k \in 1..Len(E0.pieces) : E0.pieces[k][1] > 0) = TRUE
TLen == IsEvent("Len") /\ Q /\ E0.n = st[Len(st)]
(* q = << i, j, result >> *)
TMins == IsEvent("Mins") /\ Q
         /\ (\A k \in 1..Len(E0.q) : LET q == E0.q[k] IN
               0 <= q[1] /\ q[1] <= q[2] /\ q[2] < st[Len(st)] /\ IsMin(P, st, q[1], q[2], q[3])) = TRUE
TNext == TEpisode \/ TBuild \/ TLen \/ TMins
TSpec == TInit /\ [][TNext]_vars
=============================================================================
