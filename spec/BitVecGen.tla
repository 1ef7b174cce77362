------------------------------ MODULE BitVecGen ------------------------------
(* Behaviours of BitVec.tla for replay into the implementation: TLC's simulator walks the state
   machine with random arguments biased to word boundaries and prints the numbered operations of
   each walk.  Opcodes are those of `step` in harness/src/bin/bitvec.rs.                        *)
EXTENDS BitVec, Json
CONSTANTS Depth, MaxLen
VARIABLE hist

R(S) == RandomElement(S)
Lens == { 0, 1, 2, 3, 31, 32, 33, 60, 61, 62, 63, 64 }
Word(i) == LET k == R(1..(6 + 0 * N(i)))
        IN CASE k = 1 -> U64Zero
             [] k = 2 -> U64Max
             [] k = 3 -> << 32768, 0, 0 >>
             [] k = 4 -> << 0, 0, 1 >>
             [] OTHER -> << R(0..(65535 + 0 * N(i))), R(0..(16777215 + 0 * N(i))), R(0..(16777215 + 0 * N(i))) >>
Pos(i) == LET n == N(i) IN R({ 0, n \div 2, Max2(n - 1, 0), n, (n \div 64) * 64, R(0..n) })
Drop(i) == LET n == N(i) IN R({ 0, 1, 63, 64, 65, n % 64, n \div 2, n, n + 1, R(0..n) })

GInit == slot = Init0 /\ hist = <<>>
Did(o) == hist' = hist \o << o >>
GStep(i, j) ==
  LET w == Word(i)
      len == R(Lens \cup { N(i) % 64 })
      tt == R(0..(15 + 0 * N(i)))
      n == N(i)
      m == R({ 0, 1, 63, 64, 65, 100, 128, Min2(N(j), 200) })
      b == R({ 0, 1 } \cup { N(i) % 2 })
      p == Pos(i)
      d == Drop(i)
  IN \/ FromZeros(i, m) /\ Did(<< 1, i, m >>)
     \/ FromOnes(i, m) /\ Did(<< 2, i, m >>)
     \/ AppendBool(i, b) /\ Did(<< 4, i, b >>)
     \/ AppendLow(i, << 0, 0, b >>) /\ Did(<< 5, i, 0, 0, b >>)
     \/ n < MaxLen /\ AppendWord(i, w) /\ Did(<< 6, i >> \o w)
     \/ n < MaxLen /\ AppendBits(i, w, len, 0) /\ Did(<< 7, i, len >> \o w)
     \/ AppendBits(i, w, 65, Panic) /\ Did(<< 7, i, 65 >> \o w)
     \/ n < MaxLen /\ AppendBitsUnchecked(i, w, len) /\ Did(<< 8, i, len >> \o w)
     \/ n + N(j) < MaxLen /\ Extend(i, << j >>) /\ Did(<< 9, i, j >>)
     \/ DropLast(i, d) /\ Did(<< 10, i, d >>)
     \/ p < n /\ Flip(i, p, 0) /\ Did(<< 11, i, p >>)
     \/ p < n /\ Set(i, p, w, 0) /\ Did(<< 12, i, p >> \o w)
     \/ i # j /\ p <= n /\ SplitAt(i, p, j, 0) /\ Did(<< 13, i, p, j >>)
     \/ i # j /\ n = N(j) /\ ApplyMask(i, j, tt, 0) /\ Did(<< 14, i, j, tt >>)
     \/ n # N(j) /\ ApplyMask(i, j, tt, None) /\ Did(<< 14, i, j, tt >>)
     \/ n = N(j) /\ MaskToVec(i, j, tt, j, 0) /\ Did(<< 15, i, j, tt, j >>)
     \/ i # j /\ Copy(i, j) /\ Did(<< 16, i, j >>)
GNext == \E i, j \in Slots : GStep(i, j)
GSpec == GInit /\ [][GNext]_<< slot, hist >>
(* printed once per walk, by the last step *)
Emit == Len(hist) < Depth \/ PrintT(ToJson(hist))
=============================================================================
