------------------------------- MODULE EFBig -------------------------------
(* Sorted sequences of millions of 64-bit words.  The sequence is given as pieces
   << length, first word, step >>, each an arithmetic progression of words; it is never
   materialised.  Questions whose answer would need a search are decided from a proposed
   position, which is accepted only if the elements around it prove it.  Agrees with
   Sorted.tla (EFBigMC). *)
EXTENDS U64
(* k * w, wrapping at 2^64, for 0 <= k < 2^31: digits of 12 bits *)
Dig(w, i) == CASE i = 1 -> w[3] % 4096 [] i = 2 -> w[3] \div 4096 [] i = 3 -> w[2] % 4096
               [] i = 4 -> w[2] \div 4096 [] i = 5 -> w[1] % 4096 [] i = 6 -> w[1] \div 4096 [] OTHER -> 0
KDig(k, i) == CASE i = 1 -> k % 4096 [] i = 2 -> (k \div 4096) % 4096 [] i = 3 -> k \div 16777216 [] OTHER -> 0
Col(w, k, i) == Dig(w, i) * KDig(k, 1) + Dig(w, i - 1) * KDig(k, 2) + Dig(w, i - 2) * KDig(k, 3)
UMulCols(w, k) ==
  LET c1 == Col(w, k, 1)
      c2 == Col(w, k, 2) + c1 \div 4096
      c3 == Col(w, k, 3) + c2 \div 4096
      c4 == Col(w, k, 4) + c3 \div 4096
      c5 == Col(w, k, 5) + c4 \div 4096
      c6 == Col(w, k, 6) + c5 \div 4096
  IN << c1, c2, c3, c4, c5, c6 >>
UMul(w, k) == LET c == UMulCols(w, k)
              IN << (c[5] % 4096) + 4096 * (c[6] % 16), (c[3] % 4096) + 4096 * (c[4] % 4096), (c[1] % 4096) + 4096 * (c[2] % 4096) >>
UMulFits(w, k) == UMulCols(w, k)[6] < 16 /\ Col(w, k, 7) = 0 /\ Col(w, k, 8) = 0

Starts(ps) == FoldLeft(LAMBDA a, p : Append(a, a[Len(a)] + p[1]), << 0 >>, ps)
Size(st) == st[Len(st)]
InPiece(p, k) == UAdd(p[2], UMul(p[3], k))
(* element i, counted from 0 *)
Elem(ps, st, i) == LET k == LastLeq(SubSeq(st, 1, Len(ps)), i) IN InPiece(ps[k], i - st[k])
LastOf(p) == InPiece(p, p[1] - 1)
(* the pieces describe a sorted (strictly sorted) sequence that stays below 2^64 *)
PieceOK(p, strict) ==
  /\ p[1] >= 1 /\ U64OK(p[2]) /\ U64OK(p[3]) /\ (strict /\ p[1] > 1 => p[3] # U64Zero)
  /\ UMulFits(p[3], p[1] - 1) /\ ULeq(p[2], LastOf(p))
PiecesOK(ps, strict) ==
  /\ \A i \in 1..Len(ps) : PieceOK(ps[i], strict)
  /\ \A i \in 1..(Len(ps) - 1) : IF strict THEN ULess(LastOf(ps[i]), ps[i + 1][2]) ELSE ULeq(LastOf(ps[i]), ps[i + 1][2])

(* c is the number of elements below x (strict), or not above x *)
IsCut(ps, st, x, strict, c) ==
  LET n == Size(st)
      Under(w) == IF strict THEN ULess(w, x) ELSE ULeq(w, x)
  IN c \in 0..n /\ (c > 0 => Under(Elem(ps, st, c - 1))) /\ (c < n => ~Under(Elem(ps, st, c)))
IsRank(ps, st, x, r) == IsCut(ps, st, x, TRUE, r)
IsPred(ps, st, x, c, r) == IsCut(ps, st, x, FALSE, c) /\ r = IF c = 0 THEN <<>> ELSE Elem(ps, st, c - 1)
IsSucc(ps, st, x, c, r) == IsCut(ps, st, x, TRUE, c) /\ r = IF c = Size(st) THEN <<>> ELSE Elem(ps, st, c)
AtB(ps, st, i) == IF i >= Size(st) THEN <<>> ELSE Elem(ps, st, i)
DeltaB(ps, st, i) == IF i >= Size(st) THEN <<>>
                     ELSE IF i = 0 THEN Elem(ps, st, 0) ELSE USub(Elem(ps, st, i), Elem(ps, st, i - 1))
=============================================================================
