------------------------------- MODULE Sorted -------------------------------
(* Order queries on sorted sequences of 64-bit words (U64 tuples). *)
EXTENDS U64

USorted(s) == \A i \in 1..(Len(s) - 1) : ULeq(s[i], s[i + 1])
UStrict(s) == \A i \in 1..(Len(s) - 1) : ULess(s[i], s[i + 1])

(* number of elements < x (strict) or <= x, by bisection on the sorted sequence s *)
RECURSIVE CutIn(_, _, _, _, _)
CutIn(s, x, strict, lo, hi) ==     \* s[lo] is below the cut (or lo = 0), s[hi] is not (or hi = Len + 1)
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF (IF strict THEN ULess(s[m], x) ELSE ULeq(s[m], x))
          THEN CutIn(s, x, strict, m, hi) ELSE CutIn(s, x, strict, lo, m)
CountBelow(s, x) == CutIn(s, x, TRUE, 0, Len(s) + 1)
CountUpTo(s, x)  == CutIn(s, x, FALSE, 0, Len(s) + 1)

(* optional words: <<>> is None *)
Pred(s, x) == LET k == CountUpTo(s, x) IN IF k = 0 THEN <<>> ELSE s[k]
Succ(s, x) == LET k == CountBelow(s, x) IN IF k = Len(s) THEN <<>> ELSE s[k + 1]
At(s, i) == IF i >= Len(s) THEN <<>> ELSE s[i + 1]
Delta(s, i) == IF i >= Len(s) THEN <<>>
               ELSE IF i = 0 THEN s[1] ELSE USub(s[i + 1], s[i])

(* definitions by meaning, for the model-checked agreement (SortedMC) *)
PredDef(s, x) == LET S == { i \in 1..Len(s) : ULeq(s[i], x) } IN IF S = {} THEN <<>> ELSE s[Max(S)]
SuccDef(s, x) == LET S == { i \in 1..Len(s) : ULeq(x, s[i]) } IN IF S = {} THEN <<>> ELSE s[Min(S)]
RankDef(s, x) == Cardinality({ i \in 1..Len(s) : ULess(s[i], x) })
=============================================================================
