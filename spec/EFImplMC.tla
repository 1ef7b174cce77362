------------------------------ MODULE EFImplMC ------------------------------
(* Refinement: every sorted sequence up to MaxN elements below MaxV, every split L, every query. *)
EXTENDS EFImpl
CONSTANTS MaxN, MaxV, MaxL
VARIABLES a, L
Init == L \in 0..MaxL /\ a \in { << v >> : v \in 0..MaxV }
Next == /\ Len(a) < MaxN
        /\ \E v \in a[Len(a)]..MaxV : a' = Append(a, v)
        /\ UNCHANGED L
Spec == Init /\ [][Next]_<< a, L >>

Elems == { a[i] : i \in 1..Len(a) }
PredDef(v) == LET S == { e \in Elems : e <= v } IN IF S = {} THEN None ELSE Max(S)
SuccDef(v) == LET S == { e \in Elems : e >= v } IN IF S = {} THEN None ELSE Min(S)
RankOf(v) == Cardinality({ i \in 1..Len(a) : a[i] < v })
Inv == LET x == TLCEval(EFBuild(a, L))
       IN /\ \A i \in 0..(Len(a) - 1) : EFGet(x, i) = a[i + 1]
          /\ \A i \in 0..(Len(a) - 1) : DeltaImpl(x, i) = a[i + 1] - (IF i = 0 THEN 0 ELSE a[i])
          /\ \A v \in 0..(MaxV + 1) : /\ PredImpl(x, v) = PredDef(v)
                                      /\ SuccImpl(x, v) = SuccDef(v)
                                      /\ EFRankImpl(x, v) = RankOf(v)
=============================================================================
