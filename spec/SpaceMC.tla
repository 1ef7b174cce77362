------------------------------- MODULE SpaceMC -------------------------------
(* The layouts of the structures, with their block sizes, obey the bounds of Space.tla. *)
EXTENDS Space
CONSTANTS MaxN, MaxEF, MaxE
VARIABLE z        \* zeros, for bit vectors
vars == << what, z >>
Words(n) == 8 * CeilDiv(n, 64)
RsLayout(n, zeros) == Words(n) + 2 * CeilDiv(n, 512) + 8 * CeilDiv(n, 8192)
                      + 16 * (2 + Max2(zeros \div 8192, (n + 63 - zeros) \div 8192))
EfLower(n, u) == Max2(Lg(Max2(u, 2)), Lg(n + 2)) - Lg(Max2(n, 2))
EfUpper(n, u) == 2 + n + (u \div (2^EfLower(n, u)))
EfLayout(n, u) == Words(n * EfLower(n, u) + 1) + RsLayout(EfUpper(n, u), EfUpper(n, u) - n)
TreeLayout(n, b) == LET leaves == CeilDiv(n, b)
                    IN RsLayout(n, n \div 2) + (IF n = 0 THEN 0 ELSE 24 * (leaves + Max2(1, (2^Lg(leaves)) - 1)))
TableLayout(n) == 8 * n + 4 * n * (Lg(n) + 1)
RmqLayout(n) == LET b == CeilDiv(n, 128) IN 8 * n + 33 * b + TableLayout(b)
Ns == (0..300) \cup { x \in 301..MaxN : x % 64 < 2 \/ x % 64 = 63 } \cup { 8192 * i + d : i \in 1..40, d \in {0, 1, 8191} }
Us == { u \in { (2^e) + d : e \in 0..MaxE, d \in {-1, 0, 1} } : u >= 0 }
Init == \/ \E n \in Ns : \E q \in {0, 1, 2, 4} : what = << "rs", n, 1, U64Zero >> /\ z = (n * q) \div 4
        \/ \E n \in 1..MaxEF, u \in Us : what = << "ef", n, 1, U64Small(u) >> /\ z = u
        \/ \E n \in Ns, b \in {1, 7, 64, 512} : what = << "tree", n, b, U64Zero >> /\ z = 0
        \/ \E n \in Ns \ {0} : \E k \in {"table", "rmq"} : what = << k, n, 1, U64Zero >> /\ z = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Layout == CASE what[1] = "rs" -> RsLayout(what[2], z)
            [] what[1] = "ef" -> EfLayout(what[2], z)
            [] what[1] = "tree" -> TreeLayout(what[2], what[3])
            [] what[1] = "table" -> TableLayout(what[2])
            [] what[1] = "rmq" -> RmqLayout(what[2])
LayoutFits == Layout <= Bound(what)
=============================================================================
