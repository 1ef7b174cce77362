-------------------------------- MODULE Bp --------------------------------
(* Parenthesis strings and the ordered trees they denote.  b is a sequence over {0, 1}, 1 opens;
   positions are 0-based as in the code.  Results: positions, None = -1.

   Part 1 specifies searches by the prefix excess, part 2 the tree by its stack of open nodes.
   The two are independent definitions; BpMC relates them.                                    *)
EXTENDS Base

(* ---- part 1: excess.  E[j + 1] is the excess of the first j parentheses. *)
ExcessOK(b, E) ==
  /\ Len(E) = Len(b) + 1 /\ E[1] = 0
  /\ \A i \in 1..Len(b) : E[i + 1] = E[i] + (IF b[i] = 1 THEN 1 ELSE -1)
(* L[x - lo + 1] are the positions with excess x, increasing; together they are all positions *)
LevelsOK(E, lo, L) ==
  /\ SumSeq([i \in 1..Len(L) |-> Len(L[i])]) = Len(E)
  /\ \A i \in 1..Len(L) :
       /\ \A k \in 1..Len(L[i]) : L[i][k] \in 0..(Len(E) - 1) /\ E[L[i][k] + 1] = lo + i - 1
       /\ \A k \in 1..(Len(L[i]) - 1) : L[i][k] < L[i][k + 1]
At(lo, L, x) == IF x < lo \/ x >= lo + Len(L) THEN <<>> ELSE L[x - lo + 1]
(* nearest later position j with excess(0..j) = excess(0..i) + rel *)
Fwd(E, lo, L, i, rel) ==
  IF i >= Len(E) - 1 THEN None
  ELSE LET s == At(lo, L, E[i + 2] + rel)
           k == LastLeq(s, i + 1)
       IN IF k = Len(s) THEN None ELSE s[k + 1] - 1
(* nearest earlier position j with excess(0..j-1) = excess(0..i-1) + rel *)
Bwd(E, lo, L, i, rel) ==
  IF i >= Len(E) - 1 THEN None
  ELSE LET s == At(lo, L, E[i + 1] + rel)
           k == LastLeq(s, i - 1)
       IN IF k = 0 THEN None ELSE s[k]
ExcessAt(E, i) == IF i + 2 <= Len(E) THEN E[i + 2] ELSE E[Len(E)]

(* ---- part 2: the tree.  top[i + 1] is the innermost parenthesis open before position i. *)
TopOK(b, top) ==
  /\ Len(top) = Len(b) + 1 /\ top[1] = None
  /\ \A i \in 1..Len(b) :
       top[i + 1] = IF b[i] = 1 THEN i - 1
                    ELSE IF top[i] = None THEN None ELSE top[top[i] + 1]
(* cl[i + 1]: where the parenthesis opened at i is closed.  A position closes at most one, so the
   converse (unclosed parentheses have None) is a matter of counting. *)
CloseOK(b, top, cl) ==
  /\ Len(cl) = Len(b)
  /\ \A i \in 1..Len(b) : cl[i] # None => /\ b[i] = 1 /\ cl[i] \in i..(Len(b) - 1)
                                          /\ b[cl[i] + 1] = 0 /\ top[cl[i] + 1] = i - 1
  /\ Cardinality({ i \in 1..Len(b) : cl[i] # None }) = Cardinality({ i \in 1..Len(b) : b[i] = 0 /\ top[i] # None })
Parent(top, i) == top[i + 1]
OpenOf(top, i) == top[i + 1]                      \* of the closing parenthesis at i
Enclose(b, top, i) == IF b[i + 1] = 1 \/ top[i + 1] = None THEN top[i + 1] ELSE top[top[i + 1] + 1]

(* nodes: the opening positions, in order (= pre-order) *)
NodesOK(b, nodes) ==
  /\ Len(nodes) = SumSeq(b)
  /\ \A k \in 1..Len(nodes) : nodes[k] \in 0..(Len(b) - 1) /\ b[nodes[k] + 1] = 1
  /\ \A k \in 1..(Len(nodes) - 1) : nodes[k] < nodes[k + 1]
(* kids[k]: the children of the k-th node, left to right.  A single-rooted tree: every node but the
   first is a child. *)
KidsOK(top, nodes, kids) ==
  /\ Len(kids) = Len(nodes)
  /\ SumSeq([k \in 1..Len(kids) |-> Len(kids[k])]) = Len(nodes) - 1
  /\ \A k \in 1..Len(kids) :
       /\ \A t \in 1..Len(kids[k]) : Parent(top, kids[k][t]) = nodes[k]
       /\ \A t \in 1..(Len(kids[k]) - 1) : kids[k][t] < kids[k][t + 1]
IsTree(b, E) == Len(b) > 0 /\ E[Len(E)] = 0 /\ \A i \in 2..(Len(E) - 1) : E[i] > 0
(* what an answer list (one per node, in pre-order) must be; ix maps positions to node numbers *)
FirstChildren(kids, r) == \A k \in 1..Len(kids) : r[k] = IF kids[k] = <<>> THEN None ELSE kids[k][1]
LastChildren(kids, r) == \A k \in 1..Len(kids) : r[k] = IF kids[k] = <<>> THEN None ELSE kids[k][Len(kids[k])]
Leaves(kids, r) == \A k \in 1..Len(kids) : r[k] = B2I(kids[k] = <<>>)
NextSiblings(kids, ix, r) ==
  /\ r[1] = None
  /\ \A k \in 1..Len(kids) : \A t \in 1..Len(kids[k]) :
       r[ix[kids[k][t] + 1]] = IF t = Len(kids[k]) THEN None ELSE kids[k][t + 1]
PrevSiblings(kids, ix, r) ==
  /\ r[1] = None
  /\ \A k \in 1..Len(kids) : \A t \in 1..Len(kids[k]) :
       r[ix[kids[k][t] + 1]] = IF t = 1 THEN None ELSE kids[k][t - 1]
(* depth and subtree size by their recursions *)
Depths(top, nodes, ix, d) ==
  \A k \in 1..Len(nodes) : LET p == Parent(top, nodes[k]) IN d[k] = IF p = None THEN 0 ELSE d[ix[p + 1]] + 1
Sizes(kids, ix, r) ==
  \A k \in 1..Len(kids) : r[k] = 1 + SumSeq([t \in 1..Len(kids[k]) |-> r[ix[kids[k][t] + 1]]])
(* is a an ancestor of each node (a counts as its own ancestor) *)
AncRow(top, nodes, ix, a, r) ==
  \A k \in 1..Len(nodes) :
    r[k] = IF nodes[k] = a THEN 1
           ELSE LET p == Parent(top, nodes[k]) IN IF p = None THEN 0 ELSE r[ix[p + 1]]
(* ancestors of a node: itself, its parent, ..., the root, then None *)
AncChain(top, x, r) ==
  /\ r[1] = x
  /\ \A k \in 2..Len(r) : r[k] = IF r[k - 1] = None THEN None ELSE Parent(top, r[k - 1])
(* lv[d + 1]: the nodes of depth d, left to right *)
LvOK(nodes, ix, d, lv) ==
  /\ SumSeq([i \in 1..Len(lv) |-> Len(lv[i])]) = Len(nodes)
  /\ \A i \in 1..Len(lv) :
       /\ Len(lv[i]) > 0
       /\ \A t \in 1..Len(lv[i]) : d[ix[lv[i][t] + 1]] = i - 1
       /\ \A t \in 1..(Len(lv[i]) - 1) : lv[i][t] < lv[i][t + 1]
LevelNext(lv, ix, r) == \A i \in 1..Len(lv) : \A t \in 1..Len(lv[i]) :
  r[ix[lv[i][t] + 1]] = IF t = Len(lv[i]) THEN None ELSE lv[i][t + 1]
LevelPrev(lv, ix, r) == \A i \in 1..Len(lv) : \A t \in 1..Len(lv[i]) :
  r[ix[lv[i][t] + 1]] = IF t = 1 THEN None ELSE lv[i][t - 1]
(* post-order: the nodes of the subtree, by the position of their closing parenthesis *)
PostOrder(b, cl, x, size, r) ==
  /\ Len(r) = size
  /\ \A t \in 1..Len(r) : r[t] \in x..cl[x + 1] /\ cl[r[t] + 1] # None
  /\ \A t \in 1..(Len(r) - 1) : cl[r[t] + 1] < cl[r[t + 1] + 1]
=============================================================================
