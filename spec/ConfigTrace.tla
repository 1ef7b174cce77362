---------------------------- MODULE ConfigTrace ----------------------------
(* C25: one program, run against several builds of the library.

   The library is modelled as a deterministic machine: the observable result of a call is a
   function of the calls made so far.  An event of the merged trace holds what each build
   observed at the same point of the same program; the step is a step of that machine iff all
   builds agree on the whole event (operation, arguments, results, including panics).          *)
EXTENDS TraceBase
VARIABLE agreed            \* number of events on which all builds agreed
vars == << l, agreed >>
TInit == l = 1 /\ agreed = 0
Same(c) == \A i \in 2..Len(c) : c[i] = c[1]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ Len(E0.c) >= 2 /\ (Same(E0.c)) = TRUE
         /\ agreed' = agreed + 1
TSpec == TInit /\ [][TNext]_vars
=============================================================================
