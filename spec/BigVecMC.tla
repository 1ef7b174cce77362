------------------------------ MODULE BigVecMC ------------------------------
(* BigVec.tla against plain sequences of bits, for all pairs of strings of up to N bits. *)
EXTENDS BigVec
CONSTANT N
VARIABLES s, t
vars == << s, t >>
Strings == UNION { [1..k -> {0, 1}] : k \in 0..N }
Of(x) == [n |-> U64Small(Len(x)), E |-> { U64Small(i - 1) : i \in { j \in 1..Len(x) : x[j] # (IF j = 1 THEN 0 ELSE x[j - 1]) } }]
Ones(x, k) == Cardinality({ i \in 1..k : x[i] = 1 })
Init == s \in Strings /\ t \in Strings
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inv ==
  /\ VOK(Of(s))
  /\ (Of(s) = Of(t)) = (s = t)
  /\ \A i \in 1..Len(s) : VBit(Of(s), U64Small(i - 1)) = s[i]
  /\ \A k \in 0..Len(s) : VRank1(Of(s), U64Small(k)) = U64Small(Ones(s, k))
  /\ VCount(Of(s), 1) = U64Small(Ones(s, Len(s))) /\ VCount(Of(s), 0) = U64Small(Len(s) - Ones(s, Len(s)))
  /\ \A k \in 0..Len(s) : VTake(Of(s), U64Small(k)) = Of(SubSeq(s, 1, k)) /\ VSkip(Of(s), U64Small(k)) = Of(SubSeq(s, k + 1, Len(s)))
  /\ VCat(Of(s), Of(t)) = Of(s \o t)
  /\ Len(s) = Len(t) => \A tt \in 0..15 : VMap2(tt, Of(s), Of(t)) = Of([i \in 1..Len(s) |-> (tt \div Pow2[(2 * s[i] + t[i]) + 1]) % 2])
  /\ \A i \in 1..Len(s) : VFlip(Of(s), U64Small(i - 1)) = Of([s EXCEPT ![i] = 1 - @])
                          /\ \A b \in {0, 1} : VSet(Of(s), U64Small(i - 1), b) = Of([s EXCEPT ![i] = b])
  /\ VWord(UOfBits(s), Len(s)) = Of(s)
  /\ \A p \in 0..Len(s) : \A m \in 0..(Len(s) - p) : VRead(Of(s), U64Small(p), m) = UOfBits(SubSeq(s, p + 1, p + m))
  /\ \A k \in 0..9 : UTimes(U64Small(Len(s)), k) = U64Small(k * Len(s))
  /\ \A k \in 0..5 : VRepeat(Of(s), k) = Of([i \in 1..(k * Len(s)) |-> s[((i - 1) % Len(s)) + 1]])
  /\ VElem(UOfBits(s), 70) = Of([i \in 1..70 |-> IF i <= Len(s) THEN s[i] ELSE 0])
  /\ \A b \in {0, 1} : VFill(b, U64Small(Len(s))) = Of([i \in 1..Len(s) |-> b])
=============================================================================
