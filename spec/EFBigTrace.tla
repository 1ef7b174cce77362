----------------------------- MODULE EFBigTrace -----------------------------
(* Recorded executions of Elias-Fano and sparse vectors of millions of elements against EFBig.tla
   (C09, C10, C11, C12). *)
EXTENDS TraceBase, EFBig
VARIABLES ps, st, len, it
vars == << l, ps, st, len, it >>
Q == st # <<>> /\ UNCHANGED << ps, st, len, it >>
n == Size(st)
TInit == l = 1 /\ ps = <<>> /\ st = <<>> /\ len = U64Zero /\ it = <<>>
TEpisode == IsEvent("Episode") /\ ps' = <<>> /\ st' = <<>> /\ len' = U64Zero /\ it' = <<>>
TBuild == IsEvent("Build") /\ ps' = E0.pieces /\ st' = TLCEval(Starts(E0.pieces)) /\ len' = E0.len /\ it' = <<>>
          /\ (PiecesOK(E0.pieces, E0.sparse = 1)) = TRUE /\ E0.pieces # <<>>
          /\ (E0.sparse = 1 => ULess(LastOf(E0.pieces[Len(E0.pieces)]), E0.len))
All(P(_)) == (\A i \in 1..Len(E0.rs) : P(i)) = TRUE
TLen   == IsEvent("Len") /\ Q /\ E0.r = n
TGet   == IsEvent("Get") /\ Q /\ All(LAMBDA i : E0.rs[i] = AtB(ps, st, E0.is[i]))
TDelta == IsEvent("Delta") /\ Q /\ All(LAMBDA i : E0.rs[i] = DeltaB(ps, st, E0.is[i]))
TPred  == IsEvent("Pred") /\ Q /\ All(LAMBDA i : IsPred(ps, st, E0.q[i], E0.c[i], E0.rs[i]))
TSucc  == IsEvent("Succ") /\ Q /\ All(LAMBDA i : IsSucc(ps, st, E0.q[i], E0.c[i], E0.rs[i]))
TRank  == IsEvent("Rank") /\ Q /\ All(LAMBDA i : IsRank(ps, st, E0.q[i], E0.rs[i]))
(* sparse vector *)
TSpLen == IsEvent("SpLen") /\ Q /\ E0.r = len
TSpSel == IsEvent("SpSel") /\ Q /\ All(LAMBDA i : E0.rs[i] = IF E0.is[i] >= n THEN len ELSE Elem(ps, st, E0.is[i]))
TSpGet == IsEvent("SpGet") /\ Q
  /\ All(LAMBDA i : IF ULeq(len, E0.q[i]) THEN E0.rs[i] = None
                    ELSE IsCut(ps, st, E0.q[i], TRUE, E0.c[i])
                         /\ E0.rs[i] = B2I(E0.c[i] < n /\ AtB(ps, st, E0.c[i]) = E0.q[i]))
TSpRank0 == IsEvent("SpRank0") /\ Q
  /\ All(LAMBDA i : LET m == IF ULess(E0.q[i], len) THEN E0.q[i] ELSE len
                    IN IsCut(ps, st, m, TRUE, E0.c[i]) /\ E0.rs[i] = USub(m, U64Small(E0.c[i])))
(* an element iterator: it = << first index not yet taken, first index taken from the back >> *)
TOpen == IsEvent("ItOpen") /\ st # <<>> /\ UNCHANGED << ps, st, len >> /\ it' = << 0, n >>
TStep == IsEvent("It") /\ it # <<>> /\ UNCHANGED << ps, st, len >>
  /\ LET f == it[1]
         b == it[2]
         over == E0.k >= b - f
     IN CASE E0.what = "len" -> E0.r = U64Small(b - f) /\ it' = it
          [] E0.what = "nth" -> IF over THEN E0.r = <<>> /\ it' = << b, b >>
                                ELSE E0.r = Elem(ps, st, f + E0.k) /\ it' = << f + E0.k + 1, b >>
          [] E0.what = "nth_back" -> IF over THEN E0.r = <<>> /\ it' = << f, f >>
                                     ELSE E0.r = Elem(ps, st, b - E0.k - 1) /\ it' = << f, b - E0.k - 1 >>
TNext == TEpisode \/ TBuild \/ TLen \/ TGet \/ TDelta \/ TPred \/ TSucc \/ TRank \/ TSpLen \/ TSpSel \/ TSpGet \/ TSpRank0 \/ TOpen \/ TStep
TSpec == TInit /\ [][TNext]_vars
=============================================================================
