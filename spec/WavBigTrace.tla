---------------------------- MODULE WavBigTrace ----------------------------
(* Recorded executions of wavelet matrices with millions of elements against WavBig.tla
   (C15 - C18). *)
EXTENDS TraceBase, WavBig
W == INSTANCE Wavelet
VARIABLES rs, st
vars == << l, rs, st >>
Q == st # <<>> /\ UNCHANGED << rs, st >>
n == Size(st)
TInit == l = 1 /\ rs = <<>> /\ st = <<>>
TEpisode == IsEvent("Episode") /\ rs' = <<>> /\ st' = <<>>
TBuild == IsEvent("Build") /\ rs' = E0.runs /\ st' = TLCEval(Starts(E0.runs)) /\ (W!DictOK(E0.dict)) = TRUE
          /\ (\A i \in 1..Len(E0.runs) : E0.runs[i][1] > 0 /\ E0.runs[i][2] \in 0..(Len(E0.dict) - 1)) = TRUE /\ E0.runs # <<>>
All(P(_)) == (\A i \in 1..Len(E0.q) : P(E0.q[i])) = TRUE
TLen  == IsEvent("Len") /\ Q /\ E0.r = n
TGet  == IsEvent("Get") /\ Q /\ All(LAMBDA e : e[2] = AtW(rs, st, e[1]))
TRank == IsEvent("Rank") /\ Q /\ All(LAMBDA e : IsRankRange(rs, st, e[1], e[2], e[3], e[4]))
TSel  == IsEvent("Sel") /\ Q /\ All(LAMBDA e : e[1] <= n /\ IsSelect(rs, st, e[1], e[2], e[3], e[4]))
TQuant == IsEvent("Quant") /\ Q /\ All(LAMBDA e : IsQuantile(rs, st, e[1], e[2], e[3], e[4]))
TPred == IsEvent("Pred") /\ Q /\ All(LAMBDA e : IsPred(rs, st, e[1], e[2], e[3], e[4]))
TSucc == IsEvent("Succ") /\ Q /\ All(LAMBDA e : IsSucc(rs, st, e[1], e[2], e[3], e[4]))
TNext == TEpisode \/ TBuild \/ TLen \/ TGet \/ TRank \/ TSel \/ TQuant \/ TPred \/ TSucc
TSpec == TInit /\ [][TNext]_vars
=============================================================================
