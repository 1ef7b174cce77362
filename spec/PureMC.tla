------------------------------- MODULE PureMC -------------------------------
(* Readers of structures in several threads, stepwise.  Two structures take turns at one place in
   memory.  The design of the library: a query reads the contents in several steps and keeps what it
   has in local variables only, so every interleaving and every replacement gives every query its one
   answer.  With Memo = 1 there is a memory of the last query that the readers update in two steps (key,
   then value), kept per place; with Memo = 2 it is updated in one step and kept per thread, so no
   interleaving breaks it, but a structure replaced by another does.  TLC finds both
   (PureMCRace.cfg, PureMCPlace.cfg), which shows that the specification distinguishes them. *)
EXTENDS Pure
CONSTANTS Threads, Cells, Memo, MaxAsks, MaxSwaps
VARIABLES mem,             \* contents of the two structures
          cur,             \* the structure that is in place now
          pc, want, acc,   \* per thread: step (0 idle, 101.. write the memory, 103 answer), query, what it has read
          key, val,        \* the memory: shared, or per thread
          asks, swaps
vars == << ans, mem, cur, pc, want, acc, key, val, asks, swaps >>
(* the answer to query q of structure o: the number of ones in its first q cells *)
Truth(o, q) == Cardinality({ i \in 1..q : mem[o][i] = 1 })
Slot(t) == IF Memo = 2 THEN t ELSE CHOOSE x \in Threads : TRUE
Init == /\ mem \in [1..2 -> [1..Cells -> 0..1]]
        /\ cur = 1
        /\ ans = [o \in 1..2 |-> [k \in 1..(Cells + 1) |-> Truth(o, k - 1)]]
        /\ pc = [t \in Threads |-> 0] /\ want = [t \in Threads |-> 0] /\ acc = [t \in Threads |-> 0]
        /\ key = [t \in Threads |-> 0] /\ val = [t \in Threads |-> 0] /\ asks = 0 /\ swaps = 0
Start(t) == /\ pc[t] = 0 /\ asks < MaxAsks /\ asks' = asks + 1
            /\ \E q \in 0..Cells :
                 /\ want' = [want EXCEPT ![t] = q]
                 /\ IF Memo > 0 /\ key[Slot(t)] = q THEN acc' = [acc EXCEPT ![t] = val[Slot(t)]] /\ pc' = [pc EXCEPT ![t] = 103]
                    ELSE acc' = [acc EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = 1]
            /\ UNCHANGED << ans, mem, cur, key, val, swaps >>
Read(t) == /\ pc[t] \in 1..Cells
           /\ IF pc[t] <= want[t] THEN acc' = [acc EXCEPT ![t] = @ + mem[cur][pc[t]]] /\ pc' = [pc EXCEPT ![t] = IF @ = Cells THEN 101 ELSE @ + 1]
              ELSE acc' = acc /\ pc' = [pc EXCEPT ![t] = 101]
           /\ UNCHANGED << ans, mem, cur, want, key, val, asks, swaps >>
Key(t) == /\ pc[t] = 101 /\ pc' = [pc EXCEPT ![t] = 102]
          /\ key' = IF Memo > 0 THEN [key EXCEPT ![Slot(t)] = want[t]] ELSE key
          /\ val' = IF Memo = 2 THEN [val EXCEPT ![t] = acc[t]] ELSE val
          /\ UNCHANGED << ans, mem, cur, want, acc, asks, swaps >>
Val(t) == /\ pc[t] = 102 /\ pc' = [pc EXCEPT ![t] = 103]
          /\ val' = IF Memo > 0 THEN [val EXCEPT ![Slot(t)] = acc[t]] ELSE val
          /\ UNCHANGED << ans, mem, cur, want, acc, key, asks, swaps >>
Answer(t) == /\ pc[t] = 103 /\ pc' = [pc EXCEPT ![t] = 0]
             /\ UNCHANGED << ans, mem, cur, want, acc, key, val, asks, swaps >>
(* nobody reads a structure that is being dropped: the borrow checker sees to it *)
Swap == /\ \A t \in Threads : pc[t] = 0
        /\ swaps < MaxSwaps /\ swaps' = swaps + 1 /\ cur' = 3 - cur
        /\ UNCHANGED << ans, mem, pc, want, acc, key, val, asks >>
Next == Swap \/ \E t \in Threads : Start(t) \/ Read(t) \/ Key(t) \/ Val(t) \/ Answer(t)
Spec == Init /\ [][Next]_vars
(* an answer about to be given is a step of Pure.tla *)
Pure1 == \A t \in Threads : pc[t] = 103 => acc[t] = ans[cur][want[t] + 1]
=============================================================================
