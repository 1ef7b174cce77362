---------------------------- MODULE RsVecImplMC ----------------------------
(* Refinement of the abstract vector by the directory design, exhaustively for small sizes: the
   machine appends words in every possible way; in every state, closing the vector with every
   possible last word, padding and junk gives the right answer to every query.               *)
EXTENDS RsVecImpl
CONSTANT MaxWords
VARIABLES data, dir
Word == [1..W -> 0..1]
Init == data = <<>> /\ dir = EmptyDir
Next == Len(data) < MaxWords /\ \E w \in Word :
          /\ dir' = ConsumeWord(dir, Len(data), w, 0)
          /\ data' = Append(data, w)
Spec == Init /\ [][Next]_<< data, dir >>

RankDef(d, z, p) == Cardinality({ q \in 0..(p - 1) : BitOf(d, q) = (IF z THEN 0 ELSE 1) })

Right(d, x, n) ==
  \A z \in BOOLEAN :
    LET ranks == [p \in 0..n |-> RankDef(d, z, p)]
    IN /\ \A p \in 0..(n + 1) : RankImpl(d, x, n, z, p) = ranks[Min2(p, n)]
       /\ \A r \in 0..(n + 1) :
            LET want == IF r >= ranks[n] THEN n
                        ELSE CHOOSE p \in 0..(n - 1) : ranks[p] = r /\ ranks[p + 1] = r + 1
            IN /\ SelectImpl(d, x, n, z, r, FALSE) = want
               /\ SelectImpl(d, x, n, z, r, TRUE) = want

(* every prefix, whole words *)
WholeWords == Right(data, Finish(dir), Len(data) * W)
(* every prefix plus a partial word holding any junk *)
PartialWord == \A k \in 1..(W - 1) : \A w \in Word :
  Right(Append(data, w), Finish(ConsumeWord(dir, Len(data), w, W - k)), Len(data) * W + k)

(* structural invariants of the directory the queries rely on *)
Supers == \A s \in 1..Len(dir.supers) : dir.supers[s] = RankDef(data, TRUE, (s - 1) * SuperBits)
Blocks == \A b \in 1..Len(dir.blocks) :
  dir.blocks[b] = RankDef(data, TRUE, (b - 1) * BlockBits)
                  - RankDef(data, TRUE, ((b - 1) \div NB) * SuperBits)
Samples == \A k \in 1..Len(dir.sel) :
  /\ dir.sel[k].i0 < Max2(1, Len(dir.supers)) /\ dir.sel[k].i1 < Max2(1, Len(dir.supers))
  /\ k - 1 <= dir.last0 => dir.supers = <<>> \/ dir.supers[dir.sel[k].i0 + 1] <= (k - 1) * Q
  /\ k - 1 <= dir.last1 => dir.supers = <<>> \/ dir.sel[k].i1 * SuperBits - dir.supers[dir.sel[k].i1 + 1] <= (k - 1) * Q
=============================================================================
