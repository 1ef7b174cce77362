------------------------------- MODULE BigVec -------------------------------
(* Bit strings of any length up to 2^63, as a value one can compute with.  A string is
   [n, E]: its length and the set of positions whose bit differs from the one before it (the bit
   before position 0 counts as 0), all as 64-bit words.  The pair is unique for a string, so that
   equal strings are equal values.  BigVecMC relates every operator to plain sequences of bits. *)
EXTENDS U64
VOK(v) == U64OK(v.n) /\ \A e \in v.E : U64OK(e) /\ ULess(e, v.n)
VEmpty == [n |-> U64Zero, E |-> {}]
VFill(b, n) == [n |-> n, E |-> IF b = 1 /\ n # U64Zero THEN { U64Zero } ELSE {}]
(* the bit at p (below n) *)
VBit(v, p) == Cardinality({ e \in v.E : ULeq(e, p) }) % 2
VBefore(v, p) == Cardinality({ e \in v.E : ULess(e, p) }) % 2       \* the bit before p; 0 before the first
(* ones before p (at most n): every rise at e adds p - e of them, every fall takes p - e away *)
VRank1(v, p) ==
  LET below == { e \in v.E : ULess(e, p) }
      up == { e \in below : VBit(v, e) = 1 }
      sum(S) == FoldSet(LAMBDA e, a : UAdd(a, USub(p, e)), U64Zero, S)
  IN USub(sum(up), sum(below \ up))
VCount(v, b) == IF b = 1 THEN VRank1(v, v.n) ELSE USub(v.n, VRank1(v, v.n))
(* first k bits; bits from k on (k at most n); concatenation *)
VTake(v, k) == [n |-> k, E |-> { e \in v.E : ULess(e, k) }]
VSkip(v, k) == [n |-> USub(v.n, k),
                E |-> { USub(e, k) : e \in { x \in v.E : ULess(k, x) } }
                       \union (IF ULess(k, v.n) /\ VBit(v, k) = 1 THEN { U64Zero } ELSE {})]
VCat(a, b) ==
  LET s == { UAdd(e, a.n) : e \in b.E }
      j == IF b.n # U64Zero /\ VBefore(a, a.n) = 1 THEN { a.n } ELSE {}
  IN [n |-> UAdd(a.n, b.n), E |-> a.E \union ((s \ j) \union (j \ s))]
(* bit by bit: tt is a truth table, bit 2a+b of it the result for bits a and b; equal lengths *)
VTruth(tt, a, b) == (tt \div Pow2[(2 * a + b) + 1]) % 2
VMap2(tt, a, b) ==
  LET c == IF a.n = U64Zero THEN {} ELSE a.E \union b.E \union { U64Zero }
      now(p) == VTruth(tt, VBit(a, p), VBit(b, p))
      was(p) == IF p = U64Zero THEN 0 ELSE VTruth(tt, VBefore(a, p), VBefore(b, p))
  IN [n |-> a.n, E |-> { p \in c : now(p) # was(p) }]
VUnit(v, p) == [n |-> v.n, E |-> { p } \union (LET q == UAdd(p, U64Small(1)) IN IF ULess(q, v.n) THEN { q } ELSE {})]
VFlip(v, p) == VMap2(6, v, VUnit(v, p))
VSet(v, p, b) == IF VBit(v, p) = b THEN v ELSE VFlip(v, p)
(* the low len bits of a word, least significant first *)
VWord(w, len) == [n |-> U64Small(len), E |-> { U64Small(i) : i \in { j \in 0..(len - 1) : UBit(w, j) # (IF j = 0 THEN 0 ELSE UBit(w, j - 1)) } }]
VRead(v, p, len) == UOfBits([i \in 1..len |-> VBit(v, UAdd(p, U64Small(i - 1)))])
RECURSIVE UTimes(_, _)
UTimes(a, k) == IF k = 0 THEN U64Zero ELSE LET h == UTimes(UAdd(a, a), k \div 2) IN IF k % 2 = 1 THEN UAdd(h, a) ELSE h
(* the first width bits of the word, extended by zeros beyond 64 bits *)
VElem(w, width) == IF width <= 64 THEN VWord(w, width) ELSE VCat(VWord(w, 64), VFill(0, U64Small(width - 64)))
RECURSIVE VRepeat(_, _)
VRepeat(v, k) == IF k = 0 THEN VEmpty ELSE LET h == VRepeat(v, k \div 2) d == VCat(h, h) IN IF k % 2 = 1 THEN VCat(d, v) ELSE d
=============================================================================
