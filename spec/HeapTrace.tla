----------------------------- MODULE HeapTrace -----------------------------
(* Recorded memory behaviour of every structure (C27) against Heap.tla. *)
EXTENDS TraceBase, Heap
vars == << l, held, bits, room >>
TInit == l = 1 /\ HInit
TEpisode == IsEvent("Episode") /\ held' = 0 /\ bits' = 0 /\ room' = 0
TMutate == IsEvent("Mutate") /\ HMutate(E0.a, E0.f)
TReserve == IsEvent("Reserve") /\ HReserve(E0.h, E0.a, E0.f)
TAppend == IsEvent("Append") /\ HAppend(E0.h, E0.a, E0.f)
TExtend == IsEvent("Extend") /\ HExtend(E0.h, E0.a, E0.f)
TMeasure == IsEvent("Measure") /\ HMeasure(E0.h, E0.a, E0.f)
(* the copy is released completely, and releasing it does not touch the original *)
TCopyDrop == IsEvent("CopyDrop") /\ UNCHANGED hvars /\ Net(E0.a, E0.f) = -E0.h
TSizes == IsEvent("Sizes") /\ HSizes(E0.h, E0.used, E0.held)
TDrop == IsEvent("Drop") /\ HDrop(E0.a, E0.f)
TNext == TEpisode \/ TMutate \/ TReserve \/ TAppend \/ TExtend \/ TMeasure \/ TCopyDrop \/ TSizes \/ TDrop
TSpec == TInit /\ [][TNext]_vars
=============================================================================
