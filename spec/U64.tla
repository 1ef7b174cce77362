-------------------------------- MODULE U64 --------------------------------
(* 64-bit unsigned words as tuples << hi16, mid24, lo24 >> (TLC integers have 32 bits). *)
EXTENDS Base

U64OK(w) == Len(w) = 3 /\ w[1] \in 0..65535 /\ w[2] \in 0..16777215 /\ w[3] \in 0..16777215
U64Zero == << 0, 0, 0 >>
U64Max == << 65535, 16777215, 16777215 >>
U64Small(i) == << 0, i \div 16777216, i % 16777216 >>          \* i in 0..2^31-1

ULess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
ULeq(a, b) == ~ULess(b, a)

(* a - b for a >= b *)
USub(a, b) ==
  LET l == a[3] - b[3]
      c == B2I(l < 0)
      m == a[2] - b[2] - c
      d == B2I(m < 0)
  IN << a[1] - b[1] - d, m + 16777216 * d, l + 16777216 * c >>
(* a + b, wrapping at 2^64 *)
UAdd(a, b) ==
  LET l == a[3] + b[3]
      m == a[2] + b[2] + l \div 16777216
  IN << (a[1] + b[1] + m \div 16777216) % 65536, m % 16777216, l % 16777216 >>

(* bit i (0 = least significant) *)
UBit(w, i) == IF i < 24 THEN (w[3] \div Pow2[i + 1]) % 2
              ELSE IF i < 48 THEN (w[2] \div Pow2[i - 23]) % 2
              ELSE (w[1] \div Pow2[i - 47]) % 2
UBits(w, len) == [i \in 1..len |-> UBit(w, i - 1)]

(* the word whose low bits are the sequence s of at most 64 bits *)
UPart(s, from, to) == IF to < from THEN 0 ELSE FoldLeft(LAMBDA a, i : a + s[i] * Pow2[i - from + 1], 0, [k \in 1..(to - from + 1) |-> from + k - 1])
UOfBits(s) == LET n == Len(s)
              IN << UPart(s, 49, Min2(n, 64)), UPart(s, 25, Min2(n, 48)), UPart(s, 1, Min2(n, 24)) >>
=============================================================================
