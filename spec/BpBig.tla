------------------------------- MODULE BpBig -------------------------------
(* Parenthesis strings of millions of parentheses.  The string is a sequence of pieces << kind, length >>:
   kind 1 opens throughout, -1 closes throughout, 0 repeats "()" (even length).  The string is never
   materialised; everything is computed from the excess, which is piecewise linear.  Agrees with
   Bp.tla on all short strings (BpBigMC).  T is the table of the pieces: first position and
   excess there, with the end of the string as last entry. *)
EXTENDS Base
PStep(T, p) == LET z == T[Len(T)] IN Append(T, << z[1] + p[2], z[2] + p[1] * p[2] >>)
PTable(ps) == FoldLeft(LAMBDA T, p : PStep(T, p), << << 0, 0 >> >>, ps)
PiecesOK(ps) == \A k \in 1..Len(ps) : ps[k][1] \in {-1, 0, 1} /\ ps[k][2] > 0 /\ (ps[k][1] = 0 => ps[k][2] % 2 = 0)
PN(T) == T[Len(T)][1]
(* the piece of position j; the last one for the end of the string *)
PieceOf(T, j) == LET RECURSIVE Go(_, _)
                     Go(lo, hi) == IF hi - lo <= 1 THEN lo
                                   ELSE LET m == (lo + hi) \div 2 IN IF T[m][1] <= j THEN Go(m, hi) ELSE Go(lo, m)
                 IN Go(1, Len(T))
PEx(ps, T, k, x) == CASE ps[k][1] = 1 -> T[k][2] + x [] ps[k][1] = -1 -> T[k][2] - x [] OTHER -> T[k][2] + (x % 2)
(* excess of the first j parentheses *)
PE(ps, T, j) == IF ps = <<>> THEN 0 ELSE LET k == PieceOf(T, j) IN PEx(ps, T, k, j - T[k][1])
PBit(ps, T, j) == LET k == PieceOf(T, j)
                  IN CASE ps[k][1] = 1 -> 1 [] ps[k][1] = -1 -> 0 [] OTHER -> 1 - ((j - T[k][1]) % 2)
POnes(ps, T, j) == (j + PE(ps, T, j)) \div 2          \* opening parentheses before j
(* first and last offset in a..b of piece k with excess t, -1 if there is none *)
InP(x, a, b) == IF a <= x /\ x <= b THEN x ELSE -1
FirstX(ps, T, k, t, a, b) ==
  IF a > b THEN -1
  ELSE CASE ps[k][1] = 1 -> InP(t - T[k][2], a, b)
         [] ps[k][1] = -1 -> InP(T[k][2] - t, a, b)
         [] OTHER -> IF t - T[k][2] \in {0, 1} THEN InP(IF a % 2 = t - T[k][2] THEN a ELSE a + 1, a, b) ELSE -1
LastX(ps, T, k, t, a, b) ==
  IF a > b THEN -1
  ELSE CASE ps[k][1] = 1 -> InP(t - T[k][2], a, b)
         [] ps[k][1] = -1 -> InP(T[k][2] - t, a, b)
         [] OTHER -> IF t - T[k][2] \in {0, 1} THEN InP(IF b % 2 = t - T[k][2] THEN b ELSE b - 1, a, b) ELSE -1
(* first and last position p in from..to (at most the end of the string) with excess t *)
FirstPos(ps, T, t, from, to) ==
  IF from > to \/ ps = <<>> THEN None ELSE
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(ps) \/ T[k][1] > to THEN None
               ELSE LET x == FirstX(ps, T, k, t, Max2(from - T[k][1], 0), Min2(to - T[k][1], ps[k][2]))
                    IN IF x >= 0 THEN T[k][1] + x ELSE Go(k + 1)
  IN Go(PieceOf(T, from))
LastPos(ps, T, t, from, to) ==
  IF from > to \/ ps = <<>> THEN None ELSE
  LET RECURSIVE Go(_)
      Go(k) == IF k < 1 \/ T[k + 1][1] < from THEN None
               ELSE LET x == LastX(ps, T, k, t, Max2(from - T[k][1], 0), Min2(to - T[k][1], ps[k][2]))
                    IN IF x >= 0 THEN T[k][1] + x ELSE Go(k - 1)
  IN Go(PieceOf(T, to))
(* opening parentheses at depth d (excess d before them): first, last, number in from..to *)
OpenX(ps, T, k, d, a, b, last) ==
  CASE ps[k][1] = -1 -> -1
    [] ps[k][1] = 1 -> InP(d - T[k][2], a, b)
    [] OTHER -> IF d # T[k][2] THEN -1 ELSE IF last THEN LastX(ps, T, k, d, a, b) ELSE FirstX(ps, T, k, d, a, b)
FirstOpen(ps, T, d, from, to) ==
  IF from > to \/ ps = <<>> THEN None ELSE
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(ps) \/ T[k][1] > to THEN None
               ELSE LET x == OpenX(ps, T, k, d, Max2(from - T[k][1], 0), Min2(to - T[k][1], ps[k][2] - 1), FALSE)
                    IN IF x >= 0 THEN T[k][1] + x ELSE Go(k + 1)
  IN Go(PieceOf(T, from))
LastOpen(ps, T, d, from, to) ==
  IF from > to \/ ps = <<>> THEN None ELSE
  LET RECURSIVE Go(_)
      Go(k) == IF k < 1 \/ T[k + 1][1] <= from THEN None
               ELSE LET x == OpenX(ps, T, k, d, Max2(from - T[k][1], 0), Min2(to - T[k][1], ps[k][2] - 1), TRUE)
                    IN IF x >= 0 THEN T[k][1] + x ELSE Go(k - 1)
  IN Go(PieceOf(T, to))
CountOpen(ps, T, d, from, to) ==
  IF from > to \/ ps = <<>> THEN 0 ELSE
  SumSeq([k \in 1..Len(ps) |->
    LET a == Max2(from - T[k][1], 0)
        b == Min2(to - T[k][1], ps[k][2] - 1)
        f == IF a > b THEN -1 ELSE OpenX(ps, T, k, d, a, b, FALSE)
        z == IF a > b THEN -1 ELSE OpenX(ps, T, k, d, a, b, TRUE)
    IN IF f < 0 THEN 0 ELSE ((z - f) \div 2) + 1])
(* ---- the queries *)
PFwd(ps, T, i, rel) == IF i >= PN(T) THEN None
  ELSE LET p == FirstPos(ps, T, PE(ps, T, i + 1) + rel, i + 2, PN(T)) IN IF p = None THEN None ELSE p - 1
PBwd(ps, T, i, rel) == IF i >= PN(T) THEN None ELSE LastPos(ps, T, PE(ps, T, i) + rel, 0, i - 1)
PClose(ps, T, i) == PFwd(ps, T, i, -1)            \* of an opening parenthesis
POpen(ps, T, i) == PBwd(ps, T, i, -1)             \* of a closing parenthesis
PEnclose(ps, T, i) == PBwd(ps, T, i, IF PBit(ps, T, i) = 1 THEN -1 ELSE -2)
PExcess(ps, T, i) == PE(ps, T, Min2(i + 1, PN(T)))
PLeaf(ps, T, x) == PBit(ps, T, x + 1) = 0
PFirstChild(ps, T, x) == IF PLeaf(ps, T, x) THEN None ELSE x + 1
PLastChild(ps, T, x) == IF PLeaf(ps, T, x) THEN None ELSE POpen(ps, T, PClose(ps, T, x) - 1)
PNextSib(ps, T, x) == LET c == PClose(ps, T, x) IN IF c + 1 < PN(T) /\ PBit(ps, T, c + 1) = 1 THEN c + 1 ELSE None
PPrevSib(ps, T, x) == IF x > 0 /\ PBit(ps, T, x - 1) = 0 THEN POpen(ps, T, x - 1) ELSE None
PKids(ps, T, x) == CountOpen(ps, T, PE(ps, T, x) + 1, x + 1, PClose(ps, T, x) - 1)
PSize(ps, T, x) == LET c == PClose(ps, T, x) IN IF c = None THEN None ELSE (c - x + 1) \div 2
PIsAnc(ps, T, a, x) == LET c == PClose(ps, T, a) IN IF c = None THEN None ELSE B2I(a <= x /\ x < c)
PAnc(ps, T, x, u) == IF u > PE(ps, T, x) THEN None ELSE IF u = 0 THEN x ELSE PBwd(ps, T, x, -u)
PLevelNext(ps, T, x) == FirstOpen(ps, T, PE(ps, T, x), x + 1, PN(T) - 1)
PLevelPrev(ps, T, x) == LastOpen(ps, T, PE(ps, T, x), 0, x - 1)
PLeftmost(ps, T, d) == FirstOpen(ps, T, d, 0, PN(T) - 1)
PRightmost(ps, T, d) == LastOpen(ps, T, d, 0, PN(T) - 1)
(* a single-rooted tree: no excess returns to zero before the end *)
PIsTree(ps, T) == ps # <<>> /\ T[Len(T)][2] = 0 /\ PN(T) > 1 /\ FirstPos(ps, T, 0, 1, PN(T)) = PN(T) /\ PBit(ps, T, 0) = 1
=============================================================================
