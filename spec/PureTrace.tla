----------------------------- MODULE PureTrace -----------------------------
(* Recorded histories of queries, misuse and concurrent queries (C28) against Pure.tla. *)
EXTENDS TraceBase, Pure
vars == << l, ans >>
TInit == l = 1 /\ PInit
TEpisode == IsEvent("Episode") /\ ans' = << << >>, << >> >>
TShare == IsEvent("Shareable") /\ Shareable(E0.sync, E0.send)
TAsk == IsEvent("Ask") /\ (Ask(E0.o, E0.qs, E0.rs))
TBoth == IsEvent("Both") /\ (AskBoth(E0.os, E0.qs, E0.rs))
TNext == TEpisode \/ TShare \/ TAsk \/ TBoth
TSpec == TInit /\ [][TNext]_vars
=============================================================================
