----------------------------- MODULE WaveletMC -----------------------------
(* The row forms and bisections used on traces are the definitions: all sequences up to MaxN over
   0..MaxV, all ranges and symbols. *)
EXTENDS Wavelet
CONSTANTS MaxN, MaxV
VARIABLE v
Init == v = <<>>
Next == Len(v) < MaxN /\ \E x \in 0..MaxV : v' = Append(v, x)
Spec == Init /\ [][Next]_v
Occ(i, j, c) == { p \in i..(j - 1) : v[p + 1] = c }
Inv ==
  \A i \in 0..Len(v) : \A j \in i..Len(v) :
    /\ \A c \in 0..MaxV :
         /\ CountIn(v, i, j, c) = Cardinality(Occ(i, j, c))
         /\ (i < j) =>
              LET s == SortedRange(v, i, j)
                  ge == { v[p + 1] : p \in { p \in i..(j - 1) : v[p + 1] >= c } }
                  le == { v[p + 1] : p \in { p \in i..(j - 1) : v[p + 1] <= c } }
              IN /\ PredIn(s, c) = (IF le = {} THEN None ELSE Max(le))
                 /\ SuccIn(s, c) = (IF ge = {} THEN None ELSE Min(ge))
    \* the sorted range is sorted and has every symbol as often as the range
    /\ LET s == SortedRange(v, i, j)
       IN NonDecreasing(s) /\ \A c \in 0..MaxV : Cardinality({ k \in 1..Len(s) : s[k] = c }) = Cardinality(Occ(i, j, c))
    \* the certificate form used on traces only accepts the sorted range
    /\ (i < j /\ j - i <= 4) => \A p \in [1..(j - i) -> i..(j - 1)] :
         LET s == [t \in 1..(j - i) |-> v[p[t] + 1]]
         IN IsSortOf(v, i, j, s, p) => s = SortedRange(v, i, j)
    /\ (j = Len(v)) => \A c \in 0..MaxV :
         LET p == Occurrences(v, i, c)
         IN StrictlyIncreasing(p) /\ { p[k] : k \in 1..Len(p) } = Occ(i, j, c)
            \* select inverts rank
            /\ \A k \in 1..Len(p) : CountIn(v, i, p[k], c) = k - 1
=============================================================================
