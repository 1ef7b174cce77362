------------------------------ MODULE EFBigMC ------------------------------
(* EFBig.tla against Sorted.tla on the materialised sequence, for every sequence of at most P pieces
   of at most L elements with first words and steps from small sets (also next to 2^24, 2^48 and
   2^64); UMul against repeated addition. *)
EXTENDS EFBig
SD == INSTANCE Sorted
CONSTANTS P, L
VARIABLES ps
Firsts == { U64Zero, U64Small(1), U64Small(5), U64Small(16777214), << 0, 16777215, 16777215 >>, << 65535, 16777215, 16777210 >>, U64Max }
Steps == { U64Zero, U64Small(1), U64Small(3), U64Small(16777215), << 21845, 4096, 7 >> }
FirstsQ == { U64Zero, U64Small(5), << 0, 16777215, 16777215 >>, U64Max }
StepsQ == { U64Zero, U64Small(1), U64Small(16777215), << 21845, 4096, 7 >> }
Init == ps \in UNION { [1..k -> (1..L) \X Firsts \X Steps] : k \in 0..P } /\ PiecesOK(ps, FALSE)
Next == UNCHANGED ps
Spec == Init /\ [][Next]_ps
RECURSIVE Sum(_, _)
Sum(w, k) == IF k = 0 THEN U64Zero ELSE UAdd(w, Sum(w, k - 1))
Prog(p) == [i \in 1..p[1] |-> UAdd(p[2], Sum(p[3], i - 1))]
S == FoldLeft(LAMBDA a, p : a \o Prog(p), <<>>, ps)
Near == UNION { { w, UAdd(w, U64Small(1)), UAdd(w, U64Max) } : w \in Firsts \union { S[i] : i \in 1..Len(S) } }
Inv ==
  LET s == S
      st == Starts(ps)
      n == Len(s)
  IN /\ SD!USorted(s) /\ Size(st) = n
     /\ PiecesOK(ps, TRUE) = SD!UStrict(s)
     /\ \A i \in 0..(n + 1) : AtB(ps, st, i) = SD!At(s, i) /\ DeltaB(ps, st, i) = SD!Delta(s, i)
     /\ \A x \in Near : \A c \in 0..(n + 1) :
          /\ IsRank(ps, st, x, c) = (c = SD!RankDef(s, x))
          /\ (IsCut(ps, st, x, FALSE, c) => IsPred(ps, st, x, c, SD!PredDef(s, x)))
          /\ (IsCut(ps, st, x, TRUE, c) => IsSucc(ps, st, x, c, SD!SuccDef(s, x)))
     /\ \A x \in Near : (\E c \in 0..n : IsCut(ps, st, x, FALSE, c)) /\ (\E c \in 0..n : IsCut(ps, st, x, TRUE, c))
(* a * (b * c) = (a * b) * c and distribution, for factors that reach every digit *)
Fs == { 0, 1, 2, 4095, 4096, 16777215, 16777216, 1073741823, 2147483647 }
Ws == Firsts \union Steps
ASSUME \A w \in Ws : \A k \in 0..40 : UMul(w, k) = Sum(w, k)
ASSUME \A w \in Ws : \A k \in Fs : UMul(w, k) = UAdd(UMul(w, k \div 2), UMul(w, k - k \div 2))
ASSUME \A w \in Ws : \A k \in Fs : UMul(UMul(w, 4096), k) = UMul(UMul(w, k), 4096)
ASSUME \A w \in Ws : \A v \in Ws : \A k \in Fs : UMul(UAdd(w, v), k) = UAdd(UMul(w, k), UMul(v, k))
=============================================================================
