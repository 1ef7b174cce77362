----------------------------- MODULE IterTrace -----------------------------
(* Recorded iterator executions (C07, C09) against Iter.tla.
   A Source event declares a sequence, either explicitly (vals) or as the runs of consecutive
   values (runs) with the number of elements before each run (cum).                            *)
EXTENDS TraceBase, Runs
VARIABLES src, it
vars == << l, src, it >>

ElemAt(s, k) ==
  IF Trace[s].op = "Source" THEN Trace[s].vals[k + 1]
  ELSE LET c == Trace[s].cum
           i == LastLeq(c, k)
       IN Trace[s].runs[2 * i - 1] + k - c[i]
SizeOf(s) ==
  IF Trace[s].op = "Source" THEN Len(Trace[s].vals)
  ELSE LET c == Trace[s].cum IN IF Len(c) = 0 THEN 0 ELSE c[Len(c)] + Trace[s].runs[2 * Len(c)]
SortedAt(s) == Trace[s].op = "SourceRuns" \/ Trace[s].sorted
I == INSTANCE Iter WITH Elem <- ElemAt, Size <- SizeOf, Sorted <- SortedAt

CumOK(c, r) == /\ 2 * Len(c) = Len(r)
               /\ Len(c) > 0 => c[1] = 0
               /\ \A i \in 1..(Len(c) - 1) : c[i + 1] = c[i] + r[2 * i]

TInit == l = 1 /\ src = 0 /\ it = I!Bad
TEpisode == IsEvent("Episode") /\ src' = 0 /\ it' = I!Bad
TSource  == IsEvent("Source") /\ (E0.sorted => (NonDecreasing(E0.vals)) = TRUE) /\ src' = l /\ it' = I!Bad
(* a bit string: the source are the positions of its ones or zeros *)
TSourceR == IsEvent("SourceRuns") /\ src' = l /\ it' = I!Bad
            /\ (RunsOK(E0.ones, E0.n)) = TRUE
            /\ E0.runs = (IF E0.z THEN RunsComplement(E0.ones, E0.n) ELSE E0.ones)
            /\ (CumOK(E0.cum, E0.runs)) = TRUE
TOpen    == IsEvent("Open") /\ src > 0 /\ it' = I!Open(src) /\ UNCHANGED src
(* a whole script on a new iterator; `rest` is what a final sweep from one side returned *)
RestOK(jt, e) == e.rest = (IF e.dir = 0 THEN I!Rest(jt) ELSE I!RestBack(jt))
TScript  == IsEvent("Script") /\ src > 0 /\ UNCHANGED << src, it >>
            /\ LET jt == I!RunScript(I!Open(src), E0.sc)
               IN jt # I!Bad /\ RestOK(jt, E0) /\ E0.then = None
(* part of a script: the iterator stays alive *)
TPart    == IsEvent("Part") /\ it # I!Bad /\ it' = I!RunScript(it, E0.sc) /\ it' # I!Bad /\ UNCHANGED src
(* everything that is left, from a copy, in one direction, as runs of consecutive values *)
Clip(s, a, b) == IF b <= a THEN <<>> ELSE
   LET first == ElemAt(s, a)
       last == ElemAt(s, b - 1)
   IN RunsClip(Trace[s].runs, first, last + 1)
TSweep   == IsEvent("Sweep") /\ it # I!Bad /\ UNCHANGED << src, it >>
            /\ E0.runs = Clip(it.src, it.lo, it.hi) /\ E0.then = None
(* a full sweep over a new iterator *)
TSweepAll == IsEvent("SweepAll") /\ src > 0 /\ UNCHANGED << src, it >>
            /\ E0.runs = Trace[src].runs /\ E0.then = None

TNext == TEpisode \/ TSource \/ TSourceR \/ TOpen \/ TScript \/ TPart \/ TSweep \/ TSweepAll
TSpec == TInit /\ [][TNext]_vars
=============================================================================
