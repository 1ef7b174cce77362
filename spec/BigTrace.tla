------------------------------ MODULE BigTrace ------------------------------
(* Recorded executions on vectors of more than 2^32 bits against Big.tla (C01, C05, C06, C07,
   C08, C09, C26): a bit vector under edits and conversions, and rank, select and iteration of its rank/select form. *)
EXTENDS TraceBase, Big
VARIABLES n, R, F, it
vars == << l, n, R, F, it >>
Q == UNCHANGED << n, R, F, it >>
TInit == l = 1 /\ n = U64Zero /\ R = <<>> /\ F = {} /\ it = <<>>
TEpisode == IsEvent("Episode") /\ n' = U64Zero /\ R' = <<>> /\ F' = {} /\ it' = <<>>
TBuild == IsEvent("Build") /\ n' = E0.n /\ R' = E0.runs /\ F' = {} /\ it' = <<>> /\ U64OK(E0.n) /\ (RunsOKB(E0.runs, E0.n)) = TRUE
All(P(_)) == (\A i \in 1..Len(E0.ps) : P(i)) = TRUE
TLen == IsEvent("Len") /\ Q /\ E0.r = n
TCount == IsEvent("Count") /\ Q /\ E0.r = RankB(R, F, E0.z, n)
TGet == IsEvent("Get") /\ Q /\ All(LAMBDA i : E0.rs[i] = IF ULess(E0.ps[i], n) THEN BitB(R, F, E0.ps[i]) ELSE None)
(* lens[i] bits at ps[i], 1..64 of them; <<>> if they are not all inside *)
TGetBits == IsEvent("GetBits") /\ Q
  /\ All(LAMBDA i : E0.rs[i] = IF ULeq(E0.ps[i], n) /\ ULeq(U64Small(E0.lens[i]), USub(n, E0.ps[i]))
                                THEN ReadB(R, F, E0.ps[i], E0.lens[i]) ELSE <<>>)
TRank == IsEvent("Rank") /\ Q /\ All(LAMBDA i : E0.rs[i] = RankB(R, F, E0.z, UMin(E0.ps[i], n)))
TSel == IsEvent("Sel") /\ Q
  /\ All(LAMBDA i : IF ULess(E0.ps[i], RankB(R, F, E0.z, n)) THEN IsSelB(R, F, n, E0.z, E0.ps[i], E0.rs[i]) ELSE E0.rs[i] = n)
(* edits *)
TSet == IsEvent("Set") /\ UNCHANGED << n, R, it >>
  /\ IF ULess(E0.p, n) THEN E0.ok = 1 /\ F' = IF BitB(R, F, E0.p) # E0.v THEN Toggle(F, E0.p) ELSE F
     ELSE E0.ok = 0 /\ F' = F
TFlip == IsEvent("Flip") /\ UNCHANGED << n, R, it >> /\ ULess(E0.p, n) /\ E0.ok = 1 /\ F' = Toggle(F, E0.p)
TAppend == IsEvent("Append") /\ UNCHANGED << R, it >> /\ E0.ok = 1 /\ n' = UAdd(n, U64Small(E0.len))
  /\ F' = F \union { PlusB(n, i) : i \in { j \in 0..(E0.len - 1) : UBit(E0.w, j) = 1 } }
TDrop == IsEvent("Drop") /\ UNCHANGED it /\ E0.ok = 1
  /\ LET m == IF ULess(n, E0.k) THEN U64Zero ELSE USub(n, E0.k)
     IN /\ n' = m
        /\ F' = { f \in F : ULess(f, m) }
        /\ R' = [i \in 1..Cardinality({ j \in 1..Len(R) : ULess(R[j][1], m) }) |-> << R[i][1], UMin(R[i][2], m) >>]
(* comparison with the same string with the bits at ps flipped: r = << eq, full, sparse >> *)
TEq == IsEvent("Eq") /\ Q /\ LET e == B2I(E0.ps = <<>>) IN E0.rs = << e, e, e >>
(* iterator over bits (0), positions of zeros (1) or ones (2): it = << over, not yet taken: from, to >> *)
TOpen == IsEvent("ItOpen") /\ UNCHANGED << n, R, F >>
         /\ it' = << E0.over, U64Zero, IF E0.over = 0 THEN n ELSE RankB(R, F, E0.over = 1, n) >>
Give(k, r) == IF it[1] = 0 THEN r = U64Small(BitB(R, F, k)) ELSE IsSelB(R, F, n, it[1] = 1, k, r)
TStep == IsEvent("It") /\ it # <<>> /\ UNCHANGED << n, R, F >>
  /\ LET f == it[2]
         b == it[3]
         left == USub(b, f)
         over == ~ULess(E0.k, left)
     IN CASE E0.what = "len" -> E0.r = left /\ it' = it
          [] E0.what = "nth" -> IF over THEN E0.r = <<>> /\ it' = << it[1], b, b >>
                                ELSE Give(UAdd(f, E0.k), E0.r) /\ it' = << it[1], UAdd(UAdd(f, E0.k), BOne), b >>
          [] E0.what = "nth_back" -> IF over THEN E0.r = <<>> /\ it' = << it[1], f, f >> ELSE
                                LET m == USub(USub(b, E0.k), BOne) IN Give(m, E0.r) /\ it' = << it[1], f, m >>
TNext == TEpisode \/ TBuild \/ TLen \/ TCount \/ TGet \/ TGetBits \/ TRank \/ TSel \/ TSet \/ TFlip \/ TAppend \/ TDrop \/ TEq \/ TOpen \/ TStep
TSpec == TInit /\ [][TNext]_vars
=============================================================================
