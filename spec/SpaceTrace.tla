----------------------------- MODULE SpaceTrace -----------------------------
(* Recorded sizes of every structure (C30) against Space.tla. *)
EXTENDS TraceBase, Space
vars == << l, what >>
TInit == l = 1 /\ SInit
TEpisode == IsEvent("Episode") /\ what' = << "bits", 0, 1, U64Zero >>
TBuild == IsEvent("Build") /\ SBuild(<< E0.kind, E0.n, E0.k, E0.u >>)
TMeasure == IsEvent("Measure") /\ SMeasure(E0.h, E0.c)
TNext == TEpisode \/ TBuild \/ TMeasure
TSpec == TInit /\ [][TNext]_vars
=============================================================================
