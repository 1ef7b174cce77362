---------------------------- MODULE WaveletTrace ----------------------------
(* Recorded executions of WaveletMatrix (C15-C18) against Wavelet.tla. *)
EXTENDS TraceBase, Wavelet
VARIABLES ref, sref
vars == << l, ref, sref >>
V == Trace[ref].vals
N == Len(V)
K == Trace[ref].k
Q == ref > 0 /\ UNCHANGED << ref, sref >>
TInit == l = 1 /\ ref = 0 /\ sref = 0
TEpisode == IsEvent("Episode") /\ ref' = 0 /\ sref' = 0
TBuild == IsEvent("Build") /\ ref' = l /\ sref' = 0 /\ E0.k >= 1 /\ (DictOK(E0.dict)) = TRUE
          /\ (\A i \in 1..Len(E0.vals) : E0.vals[i] \in 0..(Len(E0.dict) - 1)) = TRUE
TReload == IsEvent("Reload") /\ Q /\ E0.ok = 1
TShape == IsEvent("Shape") /\ Q /\ E0.n = N /\ E0.empty = B2I(N = 0) /\ E0.k = K /\ E0.bl = K
(* every element, by whatever method *)
TGetAll == IsEvent("GetAll") /\ Q /\ (SameSeq(E0.r, V)) = TRUE
(* calls whose arguments are out of bounds, or integer calls on words wider than 64 bits *)
TNone == IsEvent("Refused") /\ Q /\ (\A i \in 1..Len(E0.rs) : E0.rs[i] = None) = TRUE
TWide == IsEvent("Wide") /\ Q /\ K > 64 /\ (\A i \in 1..Len(E0.rs) : E0.rs[i] = None) = TRUE
TGetPast == IsEvent("GetPast") /\ Q /\ (\A i \in 1..Len(E0.ks) : E0.ks[i] >= N /\ E0.rs[i] = None) = TRUE
TRankRow == IsEvent("RankRow") /\ Q /\ (RankRow(V, E0.o, E0.c, E0.r)) = TRUE
(* q = << i, j, c, result >> *)
TRank == IsEvent("Rank") /\ Q
         /\ (\A i \in 1..Len(E0.q) : LET q == E0.q[i] IN RankRange(V, q[1], q[2], q[3], q[4])) = TRUE
TSelRow == IsEvent("SelRow") /\ Q /\ E0.o <= N /\ (SelectRow(V, E0.o, E0.c, E0.r)) = TRUE
(* unchecked select, only for ranks that exist *)
TSelRowU == IsEvent("SelRowU") /\ Q /\ E0.o < N
         /\ LET p == Occurrences(V, E0.o, E0.c) IN (\A k \in 1..Len(E0.r) : k <= Len(p) /\ E0.r[k] = p[k]) = TRUE
(* q = << offset, rank, c, result >>: far too large arguments *)
TSelPts == IsEvent("Sel") /\ Q
         /\ (\A i \in 1..Len(E0.q) :
              LET q == E0.q[i]
                  p == Occurrences(V, Min2(q[1], N), q[3])
              IN q[4] = IF q[1] >= N \/ q[2] >= Len(p) THEN None ELSE p[q[2] + 1]) = TRUE
(* the elements of a valid range in sorted order, with the positions they come from; the
   following events refer to it *)
TSort == IsEvent("Sort") /\ ref > 0 /\ UNCHANGED ref /\ sref' = l
         /\ ~BadRange(V, E0.i, E0.j) /\ (IsSortOf(V, E0.i, E0.j, E0.s, E0.p)) = TRUE
Srt(i, j) == sref > ref /\ Trace[sref].i = i /\ Trace[sref].j = j
S == Trace[sref].s
(* all quantiles of a valid range *)
TQuant == IsEvent("QuantAll") /\ Q /\ Srt(E0.i, E0.j) /\ (SameSeq(E0.r, S)) = TRUE
(* minimum, maximum, median: rs is a list of triples *)
TMMM == IsEvent("MinMaxMed") /\ Q /\ Srt(E0.i, E0.j)
         /\ LET m == E0.j - E0.i
            IN (\A t \in 1..Len(E0.rs) : /\ E0.rs[t][1] = S[1]
                                        /\ E0.rs[t][2] = S[m]
                                        /\ E0.rs[t][3] = S[(m - 1) \div 2 + 1]) = TRUE
TMMMBad == IsEvent("MMMBad") /\ Q
         /\ (\A t \in 1..Len(E0.q) : LET q == E0.q[t] IN BadRange(V, q[1], q[2]) /\ q[3] = None /\ q[4] = None /\ q[5] = None) = TRUE
(* q = << i, j, k, result >> with bad ranges or ranks *)
TQuantBad == IsEvent("QuantBad") /\ Q
         /\ (\A t \in 1..Len(E0.q) : LET q == E0.q[t] IN q[4] = None /\ (BadRange(V, q[1], q[2]) \/ q[3] >= q[2] - q[1])) = TRUE
TSorted == IsEvent("SortedAll") /\ Q /\ IF N = 0 THEN E0.r = <<>> ELSE Srt(0, N) /\ (SameSeq(E0.r, S)) = TRUE
(* predecessor / successor of symbols cs in a range *)
TPred == IsEvent("Pred") /\ Q /\ Len(E0.r) = Len(E0.cs)
         /\ IF BadRange(V, E0.i, E0.j) THEN (\A t \in 1..Len(E0.cs) : E0.r[t] = None) = TRUE
            ELSE Srt(E0.i, E0.j) /\ (\A t \in 1..Len(E0.cs) : E0.r[t] = PredIn(S, E0.cs[t])) = TRUE
TSucc == IsEvent("Succ") /\ Q /\ Len(E0.r) = Len(E0.cs)
         /\ IF BadRange(V, E0.i, E0.j) THEN (\A t \in 1..Len(E0.cs) : E0.r[t] = None) = TRUE
            ELSE Srt(E0.i, E0.j) /\ (\A t \in 1..Len(E0.cs) : E0.r[t] = SuccIn(S, E0.cs[t])) = TRUE
TNext == TEpisode \/ TBuild \/ TReload \/ TShape \/ TGetAll \/ TGetPast \/ TNone \/ TWide \/ TRankRow \/ TRank \/ TSelRow
         \/ TSelRowU \/ TSelPts \/ TSort \/ TQuant \/ TMMM \/ TMMMBad \/ TQuantBad \/ TSorted \/ TPred \/ TSucc
TSpec == TInit /\ [][TNext]_vars
=============================================================================
