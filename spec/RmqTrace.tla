------------------------------ MODULE RmqTrace ------------------------------
(* Recorded executions of BinaryRmq (C13) and FastRmq (C14) against Rmq.tla. *)
EXTENDS TraceBase, Rmq
VARIABLE ref
vars == << l, ref >>
A == Trace[ref].vals
Q == ref > 0 /\ UNCHANGED ref
TInit == l = 1 /\ ref = 0
TEpisode == IsEvent("Episode") /\ ref' = 0
TBuild == IsEvent("Build") /\ ref' = l /\ Len(E0.vals) > 0 /\ (UStrict(E0.dict)) = TRUE
          /\ (\A i \in 1..Len(E0.vals) : E0.vals[i] \in 0..(Len(E0.dict) - 1)) = TRUE
TReload == IsEvent("Reload") /\ Q /\ E0.ok = 1
(* the array is readable through the structure: length and elements *)
TRead == IsEvent("Read") /\ Q /\ E0.n = Len(A) /\ E0.empty = 0 /\ E0.vals = A
TRowR == IsEvent("RowR") /\ Q /\ E0.i + Len(E0.r) <= Len(A) /\ (RowRight(A, E0.i, E0.r)) = TRUE
TRowL == IsEvent("RowL") /\ Q /\ E0.j - Len(E0.r) + 1 >= 0 /\ (RowLeft(A, E0.j, E0.r)) = TRUE
(* rs[i+1] = RowRight of i for all i *)
TAll  == IsEvent("All") /\ Q /\ Len(E0.rs) = Len(A)
         /\ (\A i \in 0..(Len(A) - 1) : Len(E0.rs[i + 1]) = Len(A) - i /\ RowRight(A, i, E0.rs[i + 1])) = TRUE
(* q = << start kind, start, end kind, end, result >> *)
TRange == IsEvent("Ranges") /\ Q
         /\ (\A k \in 1..Len(E0.q) : LET q == E0.q[k] IN RangeQuery(A, << q[1], q[2] >>, << q[3], q[4] >>, q[5])) = TRUE
TNext == TEpisode \/ TBuild \/ TReload \/ TRead \/ TRowR \/ TRowL \/ TAll \/ TRange
TSpec == TInit /\ [][TNext]_vars
=============================================================================
