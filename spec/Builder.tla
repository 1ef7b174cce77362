------------------------------ MODULE Builder ------------------------------
(* The tree builder as a state machine: a history of enter (1) and leave (0) calls, ended by
   build.  The outcome is the tree whose parentheses are the history, or the surplus of enters. *)
EXTENDS Base
VARIABLES calls, open, outcome       \* open: enters minus leaves; outcome: << >> while building
bvars == << calls, open, outcome >>
BInit == calls = <<>> /\ open = 0 /\ outcome = <<>>
Enter == outcome = <<>> /\ calls' = Append(calls, 1) /\ open' = open + 1 /\ UNCHANGED outcome
Leave == outcome = <<>> /\ calls' = Append(calls, 0) /\ open' = open - 1 /\ UNCHANGED outcome
(* a batch of calls *)
Calls(cs) == /\ outcome = <<>> /\ calls' = calls \o cs
             /\ open' = open + 2 * SumSeq(cs) - Len(cs) /\ UNCHANGED outcome
(* << 1 >> and the parentheses, or << 0 >> and the surplus *)
Outcome == IF open = 0 THEN << 1, calls >> ELSE << 0, open >>
Build == outcome = <<>> /\ outcome' = Outcome /\ UNCHANGED << calls, open >>
BNext == Enter \/ Leave \/ Build
BSpec == BInit /\ [][BNext]_bvars
OpenInv == open = 2 * Cardinality({ i \in 1..Len(calls) : calls[i] = 1 }) - Len(calls)
(* a build succeeds exactly for histories with as many enters as leaves *)
OutcomeInv == outcome # <<>> =>
  ((outcome[1] = 1) <=> Cardinality({ i \in 1..Len(calls) : calls[i] = 1 }) = Cardinality({ i \in 1..Len(calls) : calls[i] = 0 }))
=============================================================================
