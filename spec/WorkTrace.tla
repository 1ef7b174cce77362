----------------------------- MODULE WorkTrace -----------------------------
(* Counted instructions of queries (C31) against Work.tla. *)
EXTENDS TraceBase, Work
vars == << l, what >>
TInit == l = 1 /\ WInit
TEpisode == IsEvent("Episode") /\ what' = << "bits", 0, 1 >>
TBuild == IsEvent("Build") /\ WBuild(<< E0.kind, E0.n, E0.k >>)
TWork == IsEvent("Work") /\ WQuery(E0.q, E0.m, E0.c)
TNext == TEpisode \/ TBuild \/ TWork
TSpec == TInit /\ [][TNext]_vars
=============================================================================
