------------------------------- MODULE BitVec -------------------------------
(* Mutable bit vectors as ideal bit sequences.

   slot[i] is the content of the i-th bit vector of the program under observation: a record
   [bits, tidy].  `tidy` says that nothing in the history entitles the implementation to hold
   stale bits behind the end (it matters only for the precondition of append_bits_unchecked,
   whose documentation makes the caller responsible for that).  One action per public
   operation; the actions carry the results the caller saw.                                   *)
EXTENDS U64
CONSTANT Slots
VARIABLE slot

Empty == [bits |-> <<>>, tidy |-> TRUE]
Init0 == [i \in Slots |-> Empty]

Bits(i) == slot[i].bits
N(i) == Len(slot[i].bits)

Put(i, b, t) == slot' = [slot EXCEPT ![i] = [bits |-> b, tidy |-> t \/ Len(b) % 64 = 0]]
Put2(i, b, t, j, c, u) ==
  slot' = [slot EXCEPT ![i] = [bits |-> b, tidy |-> t \/ Len(b) % 64 = 0],
                       ![j] = [bits |-> c, tidy |-> u \/ Len(c) % 64 = 0]]
Query == UNCHANGED slot

(* ---------------------------------------------------------------- constructors *)
New(i)          == Put(i, <<>>, TRUE)
FromZeros(i, n) == Put(i, [k \in 1..n |-> 0], TRUE)
FromOnes(i, n)  == Put(i, [k \in 1..n |-> 1], TRUE)
(* elements are integers or words; only the lowest bit counts *)
FromLowBits(i, ws) == Put(i, [k \in 1..Len(ws) |-> UBit(ws[k], 0)], TRUE)
FromBools(i, bs)   == Put(i, bs, TRUE)
FromLimbs(i, ws)   == Put(i, [k \in 1..(64 * Len(ws)) |-> UBit(ws[(k - 1) \div 64 + 1], (k - 1) % 64)], TRUE)
(* `width` bits per element: truncated, or zero-extended beyond the 64 bits of a word *)
Packed(ws, width) ==
  [k \in 1..(width * Len(ws)) |->
     LET e == (k - 1) \div width
         j == (k - 1) % width
     IN IF j < 64 THEN UBit(ws[e + 1], j) ELSE 0]
Pack(i, ws, width) == Put(i, Packed(ws, width), FALSE)
Copy(i, j) == slot' = [slot EXCEPT ![j] = slot[i]]
(* through another representation and back: content preserved, nothing promised about stale bits *)
Convert(i, j) == Put(j, Bits(i), FALSE)

(* ---------------------------------------------------------------- mutations *)
AppendBool(i, b)       == Put(i, Bits(i) \o << b >>, slot[i].tidy)
AppendLow(i, w)    == Put(i, Bits(i) \o << UBit(w, 0) >>, slot[i].tidy)
AppendWord(i, w)   == Put(i, Bits(i) \o UBits(w, 64), TRUE)
(* more than 64 bits is a documented panic, and appends nothing *)
AppendBits(i, w, len, r) ==
  IF len > 64 THEN r = Panic /\ Query
  ELSE r = 0 /\ Put(i, Bits(i) \o UBits(w, len), \A k \in len..63 : UBit(w, k) = 0)
AppendBitsUnchecked(i, w, len) ==
  /\ slot[i].tidy /\ len <= 64
  /\ Put(i, Bits(i) \o UBits(w, len), \A k \in len..63 : UBit(w, k) = 0)
Extend(i, js) ==
  Put(i, Bits(i) \o FoldLeft(LAMBDA a, j : a \o Bits(j), <<>>, js), FALSE)
DropLast(i, n) == Put(i, SubSeq(Bits(i), 1, N(i) - Min2(n, N(i))), n = 0 /\ slot[i].tidy)
SetTo(i, p, b) == slot' = [slot EXCEPT ![i].bits[p + 1] = b]
Flip(i, p, r) == IF p >= N(i) THEN r = Panic /\ Query
                 ELSE r = 0 /\ SetTo(i, p, 1 - Bits(i)[p + 1])
(* only the lowest bit of the value counts; r = 0 for Ok, None for Err *)
Set(i, p, w, r) == IF p >= N(i) THEN r = None /\ Query ELSE r = 0 /\ SetTo(i, p, UBit(w, 0))
(* outside the contract: an unchecked write behind the end may panic or touch bits that nobody sees *)
WriteOut(i, p, r) == p >= N(i) /\ r \in { 0, Panic } /\ Put(i, Bits(i), FALSE)
SplitAt(i, at, j, r) ==
  IF at > N(i) THEN r = None /\ Query            \* Err returns the vector unchanged
  ELSE r = 0 /\ Put2(i, SubSeq(Bits(i), 1, at), FALSE, j, SubSeq(Bits(i), at + 1, N(i)), FALSE)

(* bitwise operation given by its truth table: bit (2a + b) of tt *)
Op(tt, a, b) == (tt \div Pow2[2 * a + b + 1]) % 2
Masked(i, j, tt) == [k \in 1..N(i) |-> Op(tt, Bits(i)[k], Bits(j)[k])]
ApplyMask(i, j, tt, r) ==
  IF N(i) # N(j) THEN r = None /\ Query ELSE r = 0 /\ Put(i, Masked(i, j, tt), FALSE)
MaskToVec(i, j, tt, k, r) ==
  IF N(i) # N(j) THEN r = None /\ Query ELSE r = 0 /\ Put(k, Masked(i, j, tt), FALSE)

(* ---------------------------------------------------------------- observations *)
(* reading every bit, by whatever method *)
ReadOf(b, v) == v = b
GetOf(b, p, r) == r = IF p >= Len(b) THEN None ELSE b[p + 1]
(* q = << pos, len, tag, word >> with tag 0 (value), None or Panic; a range of zero bits may be
   answered by None or by the empty value *)
RangeOf(b, q) ==
  LET pos == q[1]
      len == q[2]
      w == SubSeq(q, 4, Len(q))
  IN IF len > 64 \/ pos > Len(b) \/ len > Len(b) - pos THEN q[3] = None
     ELSE IF len = 0 THEN q[3] = None \/ (q[3] = 0 /\ w = U64Zero)
     ELSE q[3] = 0 /\ w = UOfBits(SubSeq(b, pos + 1, pos + len))
(* q = << index, width, tag, word >> : the index-th element of a packed sequence *)
UnpackOf(b, q) ==
  LET idx == q[1]
      n == q[2]
  IN IF n > 64 \/ idx > Len(b) THEN q[3] = None ELSE RangeOf(b, << idx * n, n >> \o SubSeq(q, 3, Len(q)))
CountsOf(b, ones, zeros) == LET c == SumSeq(b) IN ones = c /\ zeros = Len(b) - c
(* limbs: enough of them, and right up to the length *)
LimbsOf(b, ws) == /\ 64 * Len(ws) >= Len(b)
                  /\ \A k \in 1..Len(b) : UBit(ws[(k - 1) \div 64 + 1], (k - 1) % 64) = b[k]

(* equality is equality of contents; equal vectors hash equally under every hasher *)
EqHash(i, j, eq, ne, hi, hj) ==
  LET e == Bits(i) = Bits(j)
  IN eq = B2I(e) /\ ne = B2I(~e) /\ (e => hi = hj)
=============================================================================
