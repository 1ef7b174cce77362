--------------------------- MODULE WaveletImplMC ---------------------------
(* Refinement: every sequence of up to MaxN symbols of K bits, every range, symbol and rank. *)
EXTENDS WaveletImpl
CONSTANT MaxN
VARIABLE s
Sym == 0..(Pow2[K + 1] - 1)
Init == s = <<>>
Next == Len(s) < MaxN /\ \E v \in Sym : s' = Append(s, v)
Spec == Init /\ [][Next]_s

In(a, b) == { i \in 1..Len(s) : a < i /\ i <= b }       \* 1-based members of the 0-based range a..b-1
Inv ==
  LET m == TLCEval(ByPartition(s))
      n == Len(s)
  IN /\ ByCounting(s) = m
     /\ \A i \in 1..n : ValueAt(m, i - 1) = s[i]
     /\ \A a \in 0..n : \A b \in a..n : \A v \in Sym :
          RankRange(m, a, b, v) = Cardinality({ i \in In(a, b) : s[i] = v })
     /\ \A a \in 0..n : \A k \in 0..n : \A v \in Sym :
          LET S == { i \in In(a, n) : s[i] = v }
          IN SelectFrom(m, a, k, v) = IF k >= Cardinality(S) THEN n
                                      ELSE (CHOOSE i \in S : Cardinality({ j \in S : j < i }) = k) - 1
     /\ \A a \in 0..(n - 1) : \A b \in (a + 1)..n :
          LET vals == { s[i] : i \in In(a, b) }
              below(v) == Cardinality({ i \in In(a, b) : s[i] < v })
          IN /\ \A k \in 0..(b - a - 1) :
                  LET q == Quantile(m, a, b, k) IN q \in vals /\ below(q) <= k /\ k < below(q + 1)
             /\ \A v \in Sym :
                  LET L == { x \in vals : x <= v }
                      G == { x \in vals : x >= v }
                  IN /\ PredIn(m, a, b, v) = IF L = {} THEN None ELSE Max(L)
                     /\ SuccIn(m, a, b, v) = IF G = {} THEN None ELSE Min(G)
=============================================================================
