------------------------------- MODULE U64MC -------------------------------
(* The word operators agree with arithmetic on small words and with each other on boundary words. *)
EXTENDS U64
VARIABLES a, b
Lim == { 0, 1, 16777215 }
Words == { << h, m, k >> : h \in { 0, 1, 65535 }, m \in Lim, k \in Lim }
Init == a \in Words /\ b \in Words
Next == UNCHANGED << a, b >>
Spec == Init /\ [][Next]_<< a, b >>
Order == /\ ULess(a, b) \/ ULess(b, a) \/ a = b
         /\ ~(ULess(a, b) /\ ULess(b, a))
         /\ ULeq(a, b) <=> (ULess(a, b) \/ a = b)
(* order is that of the most significant differing bit *)
TopBit == a # b => LET i == Max({ j \in 0..63 : UBit(a, j) # UBit(b, j) }) IN ULess(a, b) <=> UBit(b, i) = 1
SubAdd == ULeq(b, a) => UAdd(USub(a, b), b) = a /\ U64OK(USub(a, b))
RoundTrip == UOfBits(UBits(a, 64)) = a
Trunc == \A n \in { 0, 1, 23, 24, 25, 47, 48, 49, 63 } :
           LET w == UOfBits(UBits(a, n)) IN \A i \in 0..63 : UBit(w, i) = IF i < n THEN UBit(a, i) ELSE 0
Smalls == \A x \in { 0, 1, 16777215, 16777216, 1073741824 }, y \in { 0, 1, 5, 16777217 } :
            /\ ULess(U64Small(x), U64Small(y)) <=> x < y
            /\ y <= x => USub(U64Small(x), U64Small(y)) = U64Small(x - y)
=============================================================================
