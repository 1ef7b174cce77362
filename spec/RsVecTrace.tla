----------------------------- MODULE RsVecTrace -----------------------------
(* Recorded executions of RsVec against RsVec.tla (C05, C06, C08, and parts of C23-C26). *)
EXTENDS RsVec, TraceBase
vars == << vec, l >>

TInit == vec = NoVec /\ l = 1

TEpisode == IsEvent("Episode") /\ vec' = NoVec
TBuild   == IsEvent("Build") /\ Build(E0.n, E0.ones)
TLen     == IsEvent("Len") /\ E0.n = vec.n /\ E0.empty = B2I(vec.n = 0) /\ Query
TReload  == IsEvent("Reload") /\ E0.ok = 1 /\ E0.same = 1 /\ Query
TRankAll == IsEvent("RankAll") /\ E0.bad = <<>> /\ RankFunction(E0.z, E0.at0, E0.steps)
TRankPts == IsEvent("RankPts") /\ Query
            /\ (\A i \in 1..Len(E0.ps) : RankAt(E0.z, E0.ps[i], E0.rs[i])) = TRUE
TSelAll  == IsEvent("SelAll") /\ SelectFunction(E0.z, E0.vals)
TSelPast == IsEvent("SelPast") /\ Query
            /\ (\A i \in 1..Len(E0.ks) : SelectPast(E0.z, E0.ks[i], E0.rs[i])) = TRUE
TGetAll  == IsEvent("GetAll") /\ E0.bad = <<>> /\ GetFunction(E0.ones)
TGetPts  == IsEvent("GetPts") /\ Query
            /\ (\A i \in 1..Len(E0.ps) : GetAt(E0.ps[i], E0.rs[i])) = TRUE
(* q = << pos, len, tag, runs ... >> *)
TGetBits == IsEvent("GetBits") /\ Query
            /\ (\A i \in 1..Len(E0.q) :
                  LET q == E0.q[i] IN GetBits(q[1], q[2], q[3], SubSeq(q, 4, Len(q)))) = TRUE
(* unchecked reads, logged only for ranges inside the vector *)
TGetBitsU == IsEvent("GetBitsU") /\ Query
            /\ (\A i \in 1..Len(E0.q) :
                  LET q == E0.q[i] IN q[3] = 0 /\ SubSeq(q, 4, Len(q)) = RunsClip(vec.ones, q[1], q[1] + q[2])) = TRUE
(* comparison of this vector with another one whose content is given *)
Same(o) == o.n = vec.n /\ o.ones = vec.ones
TEq      == IsEvent("Eq") /\ Query
            /\ LET e == B2I(E0.n = vec.n /\ E0.ones = vec.ones)
               IN /\ E0.full = e /\ E0.s0 = e /\ E0.s1 = e /\ E0.eq = e /\ E0.ne = 1 - e
                  /\ E0.rfull = e /\ E0.rs0 = e /\ E0.rs1 = e /\ E0.req = e

TNext == \/ TEpisode \/ TBuild \/ TLen \/ TReload \/ TRankAll \/ TRankPts \/ TSelAll \/ TSelPast
         \/ TGetAll \/ TGetPts \/ TGetBits \/ TGetBitsU \/ TEq
TSpec == TInit /\ [][TNext]_vars
=============================================================================
