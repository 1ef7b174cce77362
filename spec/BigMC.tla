------------------------------- MODULE BigMC -------------------------------
(* Big.tla against the plain definition, for every string of up to N bits given as runs and a set
   of changed positions. *)
EXTENDS Big
CONSTANT N
VARIABLES len, base, flips
vars == << len, base, flips >>
RECURSIVE MkRuns(_, _, _)
MkRuns(s, i, from) ==      \* runs of the 0/1 sequence s from index i on; from: start of the open run or -1
  IF i > Len(s) THEN IF from < 0 THEN <<>> ELSE << << U64Small(from), U64Small(Len(s)) >> >>
  ELSE IF s[i] = 1 THEN MkRuns(s, i + 1, IF from < 0 THEN i - 1 ELSE from)
  ELSE IF from < 0 THEN MkRuns(s, i + 1, -1)
  ELSE << << U64Small(from), U64Small(i - 1) >> >> \o MkRuns(s, i + 1, -1)
R == MkRuns(base, 1, -1)
F == { U64Small(f) : f \in flips }
Now(i) == IF i \in flips THEN 1 - base[i + 1] ELSE base[i + 1]
Init == len \in 0..N /\ base \in [1..len -> {0, 1}] /\ flips \in SUBSET (0..(len - 1))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RankDef(z, p) == Cardinality({ i \in 0..(p - 1) : Now(i) = B2I(~z) })
Inv ==
  /\ RunsOKB(R, U64Small(len))
  /\ \A p \in 0..(len - 1) : BitB(R, F, U64Small(p)) = Now(p)
  /\ \A z \in BOOLEAN : \A p \in 0..len : RankB(R, F, z, U64Small(p)) = U64Small(RankDef(z, p))
  /\ \A z \in BOOLEAN : \A k \in 0..len : \A r \in 0..len :
       IsSelB(R, F, U64Small(len), z, U64Small(k), U64Small(r))
         = (r < len /\ Now(r) = B2I(~z) /\ RankDef(z, r) = k)
  /\ \A p \in 0..len : \A m \in 0..(len - p) : ReadB(R, F, U64Small(p), m) = UOfBits([i \in 1..m |-> Now(p + i - 1)])
=============================================================================
