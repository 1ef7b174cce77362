------------------------------ MODULE BpTrace ------------------------------
(* Recorded executions of BpTree and BpBuilder (C19-C22) against Bp.tla and Builder.tla.
   eref, mref, tref, lref: the events holding the excess, matching, tree and level tables, each
   validated when it appears. *)
EXTENDS TraceBase, Bp
VARIABLES bref, eref, mref, tref, lref, calls, open, outcome
refs == << bref, eref, mref, tref, lref >>
B == INSTANCE Builder
vars == << l, refs, calls, open, outcome >>
b == Trace[bref].b
N == Len(b)
EE == Trace[eref].e
LO == Trace[eref].lo
LL == Trace[eref].levels
TP == Trace[mref].top
CL == Trace[mref].cl
ND == Trace[tref].nodes
IX == Trace[tref].ix
KD == Trace[tref].kids
DP == Trace[lref].d
LV == Trace[lref].lv
NB == UNCHANGED << calls, open, outcome >>
Q == bref > 0 /\ UNCHANGED refs /\ NB
QE == eref > 0 /\ Q
QM == mref > 0 /\ Q
QT == tref > 0 /\ Q
QL == lref > 0 /\ Q
TInit == l = 1 /\ bref = 0 /\ eref = 0 /\ mref = 0 /\ tref = 0 /\ lref = 0 /\ B!BInit
TEpisode == /\ IsEvent("Episode") /\ bref' = 0 /\ eref' = 0 /\ mref' = 0 /\ tref' = 0 /\ lref' = 0
            /\ calls' = <<>> /\ open' = 0 /\ outcome' = <<>>
(* ---- tables *)
TBuild == IsEvent("Build") /\ bref' = l /\ UNCHANGED << eref, mref, tref, lref >> /\ NB
TReload == IsEvent("Reload") /\ Q /\ E0.ok = 1
TExcess == IsEvent("Excess") /\ bref > 0 /\ eref' = l /\ UNCHANGED << bref, mref, tref, lref >> /\ NB
           /\ (ExcessOK(b, E0.e)) = TRUE /\ (LevelsOK(E0.e, E0.lo, E0.levels)) = TRUE
TMatch == IsEvent("Match") /\ bref > 0 /\ mref' = l /\ UNCHANGED << bref, eref, tref, lref >> /\ NB
          /\ (TopOK(b, E0.top)) = TRUE /\ (CloseOK(b, E0.top, E0.cl)) = TRUE
TTree == IsEvent("Tree") /\ eref > 0 /\ mref > 0 /\ tref' = l /\ UNCHANGED << bref, eref, mref, lref >> /\ NB
         /\ (IsTree(b, EE)) = TRUE /\ (NodesOK(b, E0.nodes)) = TRUE /\ (KidsOK(TP, E0.nodes, E0.kids)) = TRUE
         /\ (\A k \in 1..Len(E0.nodes) : E0.ix[E0.nodes[k] + 1] = k) = TRUE
TLevels == IsEvent("Levels") /\ tref > 0 /\ lref' = l /\ UNCHANGED << bref, eref, mref, tref >> /\ NB
           /\ Len(E0.d) = Len(ND) /\ (Depths(TP, ND, IX, E0.d)) = TRUE /\ (LvOK(ND, IX, E0.d, E0.lv)) = TRUE
(* ---- C19 *)
TExc == IsEvent("Exc") /\ QE /\ Len(E0.r) = Len(E0.is) /\ (\A t \in 1..Len(E0.is) : E0.r[t] = ExcessAt(EE, E0.is[t])) = TRUE
TFwd == IsEvent("Fwd") /\ QE /\ Len(E0.r) = Len(E0.is)
        /\ (\A t \in 1..Len(E0.is) : E0.r[t] = Fwd(EE, LO, LL, E0.is[t], E0.rel)) = TRUE
TBwd == IsEvent("Bwd") /\ QE /\ Len(E0.r) = Len(E0.is)
        /\ (\A t \in 1..Len(E0.is) : E0.r[t] = Bwd(EE, LO, LL, E0.is[t], E0.rel)) = TRUE
(* pairs << index, result >>; close of opening, open of closing, enclose of any parenthesis *)
TClose == IsEvent("Close") /\ QM /\ (\A t \in 1..Len(E0.q) : LET i == E0.q[t][1] IN b[i + 1] = 1 /\ E0.q[t][2] = CL[i + 1]) = TRUE
TOpen == IsEvent("Open") /\ QM /\ (\A t \in 1..Len(E0.q) : LET i == E0.q[t][1] IN b[i + 1] = 0 /\ E0.q[t][2] = OpenOf(TP, i)) = TRUE
TEncl == IsEvent("Enclose") /\ QM /\ (\A t \in 1..Len(E0.q) : LET i == E0.q[t][1] IN E0.q[t][2] = Enclose(b, TP, i)) = TRUE
(* positions past the end *)
TPast == IsEvent("Past") /\ Q /\ (\A t \in 1..Len(E0.q) : E0.q[t][1] >= N /\ E0.q[t][2] = None) = TRUE
(* answers with an arbitrary value, but no panic *)
TAny == IsEvent("Total") /\ Q /\ (\A t \in 1..Len(E0.rs) : E0.rs[t] >= None) = TRUE
(* ---- C20: one answer per node *)
Row == Len(E0.r) = Len(ND)
TShape == IsEvent("Shape") /\ Q /\ E0.size = SumSeq(b) /\ E0.empty = B2I(N = 0) /\ E0.root = IF N = 0 THEN None ELSE 0
TParent == IsEvent("Parents") /\ QT /\ Row /\ (\A k \in 1..Len(ND) : E0.r[k] = Parent(TP, ND[k])) = TRUE
TFirst == IsEvent("FirstChildren") /\ QT /\ Row /\ (FirstChildren(KD, E0.r)) = TRUE
TLast == IsEvent("LastChildren") /\ QT /\ Row /\ (LastChildren(KD, E0.r)) = TRUE
TNextS == IsEvent("NextSiblings") /\ QT /\ Row /\ (NextSiblings(KD, IX, E0.r)) = TRUE
TPrevS == IsEvent("PrevSiblings") /\ QT /\ Row /\ (PrevSiblings(KD, IX, E0.r)) = TRUE
TLeaf == IsEvent("Leaves") /\ QT /\ Row /\ (Leaves(KD, E0.r)) = TRUE
TDepth == IsEvent("Depths") /\ QT /\ Row /\ (Depths(TP, ND, IX, E0.r)) = TRUE
TIndex == IsEvent("NodeIndices") /\ QT /\ Row /\ (\A k \in 1..Len(ND) : E0.r[k] = k - 1) = TRUE
THandle == IsEvent("NodeHandles") /\ QT /\ Row /\ (SameSeq(E0.r, ND)) = TRUE
TKids == IsEvent("Children") /\ QT /\ Row /\ (\A k \in 1..Len(ND) : E0.r[k] = KD[k]) = TRUE
TRKids == IsEvent("RevChildren") /\ QT /\ Row /\ (\A k \in 1..Len(ND) : E0.r[k] = Reverse(KD[k])) = TRUE
(* walks over the iterators (C20: children; C21: traversals), rows
   << x, k, lower, upper, rest, nth, last, end, end >>: after k steps the size hint brackets what is left, k steps and the
   rest make up the whole, skipping and taking the last agree with the order, and an ended iterator stays ended *)
WalkLen(x) == CASE E0.kind \in {"kids", "rkids"} -> Len(KD[IX[x + 1]])
              [] OTHER -> (CL[x + 1] - x + 1) \div 2
WalkAt(x, k) ==   \* k-th item from 0; in post-order, known for the last one only
  CASE E0.kind = "kids" -> KD[IX[x + 1]][k + 1]
    [] E0.kind = "rkids" -> KD[IX[x + 1]][Len(KD[IX[x + 1]]) - k]
    [] E0.kind = "pre" -> ND[IX[x + 1] + k]
    [] OTHER -> x
WalkOK(w) == LET x == w[1]
                 k == w[2]
                 m == WalkLen(x)
                 rest == Max2(0, m - k)
             IN /\ Len(w) = 9
                /\ w[3] \in 0..rest /\ (w[4] = None \/ w[4] >= rest) /\ w[5] = rest
                /\ IF k >= m THEN w[6] = None
                   ELSE IF E0.kind = "post" /\ k < m - 1 THEN w[6] >= x /\ w[6] <= CL[x + 1] /\ b[w[6] + 1] = 1
                   ELSE w[6] = WalkAt(x, k)
                /\ w[7] = IF m = 0 THEN None ELSE WalkAt(x, m - 1)
                /\ w[8] = None /\ w[9] = None
TWalk == IsEvent("Walk") /\ QT /\ (\A t \in 1..Len(E0.q) : WalkOK(E0.q[t])) = TRUE
(* unbalanced strings: the documented depth *)
TDepthU == IsEvent("DepthU") /\ QE /\ (\A t \in 1..Len(E0.q) : E0.q[t][2] = Max2(0, EE[E0.q[t][1] + 2] - 1)) = TRUE
(* ---- C21 *)
TSizes == IsEvent("Sizes") /\ QT /\ Row /\ (Sizes(KD, IX, E0.r)) = TRUE
TAncRow == IsEvent("AncRow") /\ QT /\ Row /\ (AncRow(TP, ND, IX, E0.a, E0.r)) = TRUE
TAncChain == IsEvent("AncChain") /\ QT /\ E0.r[Len(E0.r)] = None /\ (AncChain(TP, E0.x, E0.r)) = TRUE
TAncPts == IsEvent("AncPts") /\ QL      \* << x, level, result >>: ancestor at that height, or None above the root
           /\ (\A t \in 1..Len(E0.q) :
                LET q == E0.q[t]
                    d == DP[IX[q[1] + 1]]
                IN IF q[2] > d THEN q[3] = None
                   ELSE q[3] \in 0..q[1] /\ b[q[3] + 1] = 1 /\ DP[IX[q[3] + 1]] = d - q[2] /\ CL[q[3] + 1] >= CL[q[1] + 1]) = TRUE
TLNext == IsEvent("LevelNext") /\ QL /\ Row /\ (LevelNext(LV, IX, E0.r)) = TRUE
TLPrev == IsEvent("LevelPrev") /\ QL /\ Row /\ (LevelPrev(LV, IX, E0.r)) = TRUE
TLMost == IsEvent("LevelMost") /\ QL
          /\ (\A t \in 1..Len(E0.q) :
               LET d == E0.q[t][1]
               IN IF d >= Len(LV) THEN E0.q[t][2] = None /\ E0.q[t][3] = None
                  ELSE E0.q[t][2] = LV[d + 1][1] /\ E0.q[t][3] = LV[d + 1][Len(LV[d + 1])]) = TRUE
(* handles in order; valid for every parenthesis string *)
TPre == IsEvent("Pre") /\ Q /\ (NodesOK(b, E0.r)) = TRUE
TSubPre == IsEvent("SubPre") /\ QT
           /\ LET k == IX[E0.x + 1]
                  m == (CL[E0.x + 1] - E0.x + 1) \div 2
              IN Len(E0.r) = m /\ (\A t \in 1..m : E0.r[t] = ND[k + t - 1]) = TRUE
TSubPost == IsEvent("SubPost") /\ QT /\ (PostOrder(b, CL, E0.x, (CL[E0.x + 1] - E0.x + 1) \div 2, E0.r)) = TRUE
(* unbalanced strings: subtree sizes and ancestors, None for parentheses that are never closed *)
TSizeU == IsEvent("SizeU") /\ QM
          /\ (\A t \in 1..Len(E0.q) : LET x == E0.q[t][1] IN E0.q[t][2] = IF CL[x + 1] = None THEN None ELSE (CL[x + 1] - x + 1) \div 2) = TRUE
TAncU == IsEvent("AncU") /\ QM
         /\ (\A t \in 1..Len(E0.q) :
              LET x == E0.q[t][1]
                  y == E0.q[t][2]
              IN E0.q[t][3] = IF CL[x + 1] = None THEN None ELSE B2I(x <= y /\ y < CL[x + 1])) = TRUE
(* ---- C22 *)
KeepRefs == UNCHANGED refs
TCalls == IsEvent("Calls") /\ KeepRefs /\ B!Calls(E0.cs)
TBuilt == /\ IsEvent("Built") /\ KeepRefs /\ B!Build
          /\ IF outcome'[1] = 1 THEN E0.ok = 1 /\ SameSeq(E0.bits, outcome'[2]) /\ E0.size = SumSeq(calls)
             ELSE E0.ok = 0 /\ E0.err = outcome'[2]
TNext == TEpisode \/ TBuild \/ TReload \/ TExcess \/ TMatch \/ TTree \/ TLevels \/ TExc \/ TFwd \/ TBwd \/ TClose \/ TOpen
  \/ TEncl \/ TPast \/ TAny \/ TShape \/ TParent \/ TFirst \/ TLast \/ TNextS \/ TPrevS \/ TLeaf \/ TDepth \/ TIndex \/ THandle
  \/ TKids \/ TRKids \/ TWalk \/ TDepthU \/ TSizes \/ TAncRow \/ TAncChain \/ TAncPts \/ TLNext \/ TLPrev \/ TLMost \/ TPre \/ TSubPre
  \/ TSubPost \/ TSizeU \/ TAncU \/ TCalls \/ TBuilt
TSpec == TInit /\ [][TNext]_vars
=============================================================================
