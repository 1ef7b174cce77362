------------------------------- MODULE EFTrace -------------------------------
(* Recorded executions of EliasFanoVec (C10, C11) and SparseRSVec (C12). *)
EXTENDS TraceBase, Sorted
VARIABLES ref, len
vars == << l, ref, len >>
Words(r) == Trace[r].ws
EF == INSTANCE EliasFano WITH Content <- Words
V == Words(ref)
Q == ref > 0 /\ UNCHANGED << ref, len >>

TInit == l = 1 /\ ref = 0 /\ len = U64Zero
TEpisode == IsEvent("Episode") /\ ref' = 0 /\ len' = U64Zero
TBuildEF == IsEvent("BuildEF") /\ EF!BuildEF(l)
TBuildSp == IsEvent("BuildSp") /\ EF!BuildSparse(l, E0.len)
TLen     == IsEvent("Len") /\ Q /\ E0.n = Len(V) /\ E0.empty = B2I(Len(V) = 0)
TReload  == IsEvent("Reload") /\ Q /\ E0.ok = 1
(* the i-th element for every i, by whatever method *)
TGetAll  == IsEvent("GetAll") /\ Q /\ (SameSeq(E0.ws, V)) = TRUE
TDelta   == IsEvent("DeltaAll") /\ Q /\ Len(E0.ws) = Len(V)
            /\ (\A i \in 1..Len(V) : E0.ws[i] = Delta(V, i - 1)) = TRUE
(* reads past the end *)
TPast    == IsEvent("Past") /\ Q /\ (\A i \in 1..Len(E0.rs) : E0.ks[i] >= Len(V) /\ E0.rs[i] = <<>>) = TRUE
TPred    == IsEvent("Pred") /\ Q /\ (\A i \in 1..Len(E0.q) : E0.r[i] = Pred(V, E0.q[i])) = TRUE
TSucc    == IsEvent("Succ") /\ Q /\ (\A i \in 1..Len(E0.q) : E0.r[i] = Succ(V, E0.q[i])) = TRUE
(* unchecked variants are called only where the answer exists *)
TRank    == IsEvent("Rank") /\ Q /\ (\A i \in 1..Len(E0.q) : E0.r[i] = CountBelow(V, E0.q[i])) = TRUE

TSpLen   == IsEvent("SpLen") /\ Q /\ E0.w = len /\ E0.empty = B2I(len = U64Zero)
TSpGet   == IsEvent("SpGet") /\ Q /\ (\A i \in 1..Len(E0.q) : E0.r[i] = EF!SpGet(E0.q[i])) = TRUE
TSpGetU  == IsEvent("SpGetU") /\ Q /\ (\A i \in 1..Len(E0.q) : EF!SpGet(E0.q[i]) # None /\ E0.r[i] = EF!SpGet(E0.q[i])) = TRUE
TSpRank0 == IsEvent("SpRank0") /\ Q /\ (\A i \in 1..Len(E0.q) : E0.r[i] = EF!SpRank0(E0.q[i])) = TRUE
TSpSel   == IsEvent("SpSel") /\ Q /\ (\A i \in 1..Len(E0.ks) : E0.r[i] = EF!SpSelect(E0.ks[i])) = TRUE

TNext == TEpisode \/ TBuildEF \/ TBuildSp \/ TLen \/ TReload \/ TGetAll \/ TDelta \/ TPast \/ TPred \/ TSucc \/ TRank
         \/ TSpLen \/ TSpGet \/ TSpGetU \/ TSpRank0 \/ TSpSel
TSpec == TInit /\ [][TNext]_vars
=============================================================================
